SPECIFICATION Spec
CONSTANTS Atoms = {1, 2} W = 1 MaxOps = 3
INVARIANTS Alternate Together Symmetric
CHECK_DEADLOCK FALSE
