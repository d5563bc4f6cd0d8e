SPECIFICATION Spec
CONSTANTS P = 6 Dm = 4 Max = 16
CHECK_DEADLOCK FALSE
INVARIANTS Count Measure Partial
