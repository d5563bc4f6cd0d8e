CONSTANTS MAX = 99 N = 3 Vals = {1, 2}
SPECIFICATION Spec
VIEW V
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
