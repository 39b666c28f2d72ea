INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS
 MaxLen = 4
 Kinds = {"TectonicBoundaryFeature", "FaultInterpretation", "GenericFeatureInterpretation"}
 Titles = {"t", "u"}
 Values = {"0.0", "b"}
 Extras = {"x", "y"}
 Reuses = {TRUE}
CHECK_DEADLOCK FALSE
