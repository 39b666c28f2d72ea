SPECIFICATION Spec
CONSTANT MaxSteps = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
