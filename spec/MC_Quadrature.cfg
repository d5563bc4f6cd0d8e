SPECIFICATION Spec
CONSTANTS P = 3 Dm = 3 Max = 9
CHECK_DEADLOCK FALSE
INVARIANTS Count Measure Partial
