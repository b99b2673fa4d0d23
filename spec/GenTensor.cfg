CONSTANT MaxRank = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
