INIT Init
NEXT Next
CONSTANTS
  Ids = {1, 2, 3}
  KindSet = {"TectonicBoundaryFeature", "FaultInterpretation", "GenericA"}
  MaxLen = 4
  Gen = FALSE
CONSTRAINT Bound
VIEW View
INVARIANTS TypeOK RelationsSymmetric ModesDisjoint NoSelf SaveLoses RelsPaired
