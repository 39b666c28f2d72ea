SPECIFICATION Spec
CONSTANT MaxSteps = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
