SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANTS Positions Complete Progress
CHECK_DEADLOCK FALSE
