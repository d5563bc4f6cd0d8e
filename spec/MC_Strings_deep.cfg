CONSTANTS MaxLen = 6
SPECIFICATION Spec
INVARIANTS Recombine Pieces Replacing
CHECK_DEADLOCK FALSE
