CONSTANTS NG = 2 NO = 1 NH = 1 NW = 0 Nums = {0, 7} Flds = {1}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
