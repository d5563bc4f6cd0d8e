CONSTANTS Bodies = {1, 2, 4} Rots = {0, 1}
SPECIFICATION Spec
VIEW V
INVARIANTS OrderFree Open Tetrahedron
CHECK_DEADLOCK FALSE
