SPECIFICATION Spec
CONSTANTS MaxRank = 3
 MaxExt = 3
 Deep = 2
VIEW V
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
