SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
