INIT Init
NEXT GenNext
CONSTANTS
  Ids = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  KindSet = {"TectonicBoundaryFeature", "FaultInterpretation", "OrganizationFeature", "EarthModelInterpretation", "LocalDepth3dCrs", "MdDatum", "WellboreFeature", "WellboreInterpretation", "GenericA", "GenericB"}
  MaxLen = 18
  Gen = TRUE
INVARIANT Emit
