CONSTANT D = 2
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
