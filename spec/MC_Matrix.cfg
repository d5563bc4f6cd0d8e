CONSTANTS D2 = 1 D3 = 1
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
