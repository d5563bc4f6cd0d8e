CONSTANTS Names = {1, 2} Objs = {1, 2} MaxLen = 2
          Vals <- V2
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
PROPERTIES Frame FileIs LastWins ReadIs
