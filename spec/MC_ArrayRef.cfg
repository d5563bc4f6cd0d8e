CONSTANTS MAX = 99 N = 3 Vals = {1, 2}
SPECIFICATION Spec
VIEW V
INVARIANTS Inside DropsAreSlices
PROPERTIES OnlyShrinks RefusedPure
CHECK_DEADLOCK FALSE
