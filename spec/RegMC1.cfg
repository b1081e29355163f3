SPECIFICATION Spec
CONSTANTS MaxP = 2  MaxOps = 1
VIEW View
INVARIANTS Consistent Restores Idempotent AppendDerive StripKeeps
CHECK_DEADLOCK FALSE
