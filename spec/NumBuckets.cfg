SPECIFICATION Spec
CONSTANTS Max = 20  Width = 7  Tol = 2  InFront = FALSE  Steps = 7
VIEW View
INVARIANTS Good Sorted Placed Separated Kept
CHECK_DEADLOCK FALSE
