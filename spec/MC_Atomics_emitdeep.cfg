SPECIFICATION SpecEmit
CONSTANTS NT = 2
 Menu <- CasMenu
 Len1 = 2
 LenN = 2
 V0 = 5
 MaxSpurious = 2
 KeepSched = TRUE
INVARIANT EmitSchedule
