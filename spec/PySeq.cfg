SPECIFICATION TSpec
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
