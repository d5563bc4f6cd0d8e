CONSTANTS K = 3 L = 3
SPECIFICATION Spec
VIEW V
INVARIANT InRange
PROPERTIES OneElement OthersPure
CHECK_DEADLOCK FALSE
