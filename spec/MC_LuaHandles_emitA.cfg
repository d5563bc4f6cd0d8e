CONSTANTS NG = 1 NO = 1 NH = 2 NW = 1 Nums = {0, 7} Flds = {1}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
