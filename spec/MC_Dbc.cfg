CONSTANTS Vals = {0, 1, 2, 7} Len0 = 4
SPECIFICATION Spec
INVARIANTS Exactly ThrowLeaves Dual
PROPERTY NothingIsSilent
CHECK_DEADLOCK FALSE
