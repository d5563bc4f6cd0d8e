CONSTANTS NG = 1 NO = 2 NH = 1 NW = 1 Nums = {0} Flds = {1, 2}
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
