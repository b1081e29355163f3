SPECIFICATION Spec
CONSTANT Eps2 = 15
INVARIANT Inv
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
