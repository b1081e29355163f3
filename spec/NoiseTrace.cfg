SPECIFICATION Spec
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
