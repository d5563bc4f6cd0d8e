CONSTANTS Size = 2 Vals <- V3 Bound = 3 Units = {1, 2}
SPECIFICATION Spec
VIEW V
PROPERTIES SelfOps Others
CHECK_DEADLOCK FALSE
