CONSTANTS BIG = 2000000001 Slots = {1, 2} MaxStore = 1 MaxPath = 2 Fs = {1, 2, 3, 6, 7, 13, 17}
SPECIFICATION Spec
VIEW V
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
