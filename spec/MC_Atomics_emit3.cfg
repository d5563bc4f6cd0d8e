SPECIFICATION SpecEmit
CONSTANTS NT = 3
 Menu <- CasMenu
 Len1 = 1
 LenN = 1
 V0 = 5
 MaxSpurious = 1
 KeepSched = TRUE
INVARIANT EmitSchedule
