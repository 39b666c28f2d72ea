INIT Init
NEXT Next
CONSTANTS
  IdSet = {1, 2}
  Names = {"m", "n"}
  KindSet = {"GenericA"}
  MaxLen = 4
  Gen = FALSE
VIEW View
INVARIANTS ArraysAvailable SavedIsWhole FpComplete TargetsInside
