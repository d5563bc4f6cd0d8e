CONSTANTS K = 2 L = 3
SPECIFICATION Spec
VIEW V
INVARIANT InRange
PROPERTIES OneElement OthersPure
CHECK_DEADLOCK FALSE
