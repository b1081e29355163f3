SPECIFICATION GSpec
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
