INIT Init
NEXT GenNext
CONSTANTS
  IdSet = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  Names = {"m", "n", "other"}
  KindSet = {"GenericA", "GenericB"}
  MaxLen = 20
  Gen = TRUE
INVARIANTS Emit
