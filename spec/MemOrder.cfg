SPECIFICATION Spec
INVARIANT MessagePassing
CHECK_DEADLOCK FALSE
