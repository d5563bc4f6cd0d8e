SPECIFICATION SpecEmit
CONSTANTS NT = 2
 Menu <- PunMenu
 Len1 = 1
 LenN = 2
 V0 = 5
 MaxSpurious = 1
 KeepSched = TRUE
INVARIANT EmitSchedule
