SPECIFICATION Spec
CONSTANTS Ps = {0, 1, 4} MaxLen = 1
INVARIANTS TraceOne Hermitian Positive Unravelled Commute
CHECK_DEADLOCK FALSE
