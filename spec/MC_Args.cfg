CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS Transparent Terminated Counts NoOverride Forms AnyOrder
PROPERTIES Errors
CHECK_DEADLOCK FALSE
