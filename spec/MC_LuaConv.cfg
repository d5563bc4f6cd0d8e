SPECIFICATION Spec
INVARIANTS NothingFabricated NothingRefused Identity SameLength
CHECK_DEADLOCK FALSE
