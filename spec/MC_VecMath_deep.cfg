CONSTANT D = 3
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
