SPECIFICATION Spec
CONSTANTS NT = 3
 Menu <- AllMenu
 Len1 = 2
 LenN = 1
 V0 = 5
 MaxSpurious = 1
 KeepSched = FALSE
INVARIANT MutexOk
PROPERTY Abstract
PROPERTY Terminates
