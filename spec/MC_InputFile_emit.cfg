CONSTANTS Names = {1, 2} Objs = {1} MaxLen = 2
          Vals <- V3
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
