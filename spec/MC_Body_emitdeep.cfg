CONSTANTS Bodies = {1, 2} Rots = {0, 1}
SPECIFICATION Spec
VIEW V
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
