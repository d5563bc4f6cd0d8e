CONSTANTS N = 4
          Vals = {1, 2}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
