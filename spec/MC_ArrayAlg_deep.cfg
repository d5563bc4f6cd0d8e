CONSTANTS Size = 3 Vals <- V3 Bound = 2 Units = {1, 2}
SPECIFICATION Spec
VIEW V
PROPERTIES SelfOps Others
CHECK_DEADLOCK FALSE
