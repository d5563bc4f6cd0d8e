SPECIFICATION SpecEmit
CONSTANTS NT = 3
 Menu <- LockMenu
 Len1 = 1
 LenN = 1
 V0 = 5
 MaxSpurious = 0
 KeepSched = TRUE
INVARIANT EmitSchedule
