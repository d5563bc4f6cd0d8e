SPECIFICATION Spec
CONSTANTS Dim = 3
Vals <- V2
CHECK_DEADLOCK FALSE
INVARIANTS Affine DetT Inverse
