SPECIFICATION ASpec
CONSTANT Eps = 64
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
