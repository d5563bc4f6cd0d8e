CONSTANTS Bodies = {1, 2, 3, 4} Rots = {0}
SPECIFICATION Spec
VIEW V
INVARIANTS OrderFree Open Tetrahedron
CHECK_DEADLOCK FALSE
