SPECIFICATION Spec
CONSTANTS Dim = 3
Vals <- V3
CHECK_DEADLOCK FALSE
INVARIANTS Affine DetT Inverse
