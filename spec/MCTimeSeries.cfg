SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
