SPECIFICATION QSpec
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
