SPECIFICATION Spec
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
