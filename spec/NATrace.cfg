SPECIFICATION NSpec
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
