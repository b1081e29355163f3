SPECIFICATION Spec
CONSTANTS Atoms = {1, 2} W = 2 MaxOps = 4
INVARIANTS Alternate Together Symmetric
CHECK_DEADLOCK FALSE
