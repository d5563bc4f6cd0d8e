CONSTANTS Size = 2 Vals <- V2 Bound = 2 Units = {1}
SPECIFICATION Spec
VIEW V
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
