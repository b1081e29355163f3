SPECIFICATION SSpec
CONSTANT Eps = 64
CONSTANT MaxMeas = 4
CONSTANT MaxBlocks = 60
POSTCONDITION Diam
CHECK_DEADLOCK FALSE
