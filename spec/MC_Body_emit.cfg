CONSTANTS Bodies = {1, 2, 3, 4} Rots = {0}
SPECIFICATION Spec
VIEW V
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
