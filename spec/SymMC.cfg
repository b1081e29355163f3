SPECIFICATION Spec
INVARIANT Algebra
CHECK_DEADLOCK FALSE
