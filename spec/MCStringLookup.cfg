INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS
 MaxLen = 4
 Keys = {0, 1, 5}
 Vals = {"a", "b"}
CHECK_DEADLOCK FALSE
