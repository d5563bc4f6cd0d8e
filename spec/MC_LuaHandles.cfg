CONSTANTS NG = 1 NO = 2 NH = 2 NW = 1 Nums = {0, 7} Flds = {1}
SPECIFICATION Spec
VIEW View
INVARIANT Typed
PROPERTIES Stable Kept FailuresPure
CHECK_DEADLOCK FALSE
