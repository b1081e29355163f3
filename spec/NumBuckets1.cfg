SPECIFICATION Spec
CONSTANTS Max = 14  Width = 7  Tol = 2  InFront = FALSE  Steps = 6
VIEW View
INVARIANTS Good Sorted Placed Separated Kept
CHECK_DEADLOCK FALSE
