CONSTANTS N = 4
SPECIFICATION Spec
INVARIANTS Transparent Terminated Counts NoOverride Forms AnyOrder
PROPERTIES Errors
CHECK_DEADLOCK FALSE
