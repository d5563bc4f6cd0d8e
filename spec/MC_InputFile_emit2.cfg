CONSTANTS Names = {1, 2} Objs = {1, 2} MaxLen = 1
          Vals <- V3
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitTransition
