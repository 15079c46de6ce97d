SPECIFICATION Spec
INVARIANT Printed
CHECK_DEADLOCK FALSE
