CONSTANTS MaxLen = 4
SPECIFICATION Spec
INVARIANTS Recombine Pieces Replacing
CHECK_DEADLOCK FALSE
