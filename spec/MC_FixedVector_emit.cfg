CONSTANTS N = 3
          Vals = {1, 2}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
