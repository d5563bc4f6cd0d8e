SPECIFICATION Spec
CONSTANTS NT = 3
 Menu <- AllMenu
 Len1 = 2
 LenN = 2
 V0 = 5
 MaxSpurious = 2
 KeepSched = FALSE
INVARIANT MutexOk
PROPERTY Abstract
