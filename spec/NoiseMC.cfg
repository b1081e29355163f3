SPECIFICATION Spec
CONSTANTS Ps = {0, 1, 2, 3, 4} MaxLen = 2
INVARIANTS TraceOne Hermitian Positive Unravelled Commute
CHECK_DEADLOCK FALSE
