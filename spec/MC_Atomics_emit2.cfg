SPECIFICATION SpecEmit
CONSTANTS NT = 2
 Menu <- CasMenu
 Len1 = 1
 LenN = 2
 V0 = 5
 MaxSpurious = 1
 KeepSched = TRUE
INVARIANT EmitSchedule
