SPECIFICATION Spec
CONSTANT MaxSteps = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
