SPECIFICATION Spec
CONSTANT MaxSteps = 7
INVARIANT Inv
CHECK_DEADLOCK FALSE
