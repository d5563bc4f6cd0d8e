CONSTANTS D2 = 2 D3 = 1
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
