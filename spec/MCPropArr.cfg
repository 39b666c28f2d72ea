SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
