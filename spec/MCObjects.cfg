INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS
 MaxLen = 3
 Kinds = {"TectonicBoundaryFeature", "FaultInterpretation", "LocalDepth3dCrs"}
 Titles = {"t", "u"}
 Values = {"0.0", "b"}
 Extras = {"x", "y"}
 Reuses = {TRUE, FALSE}
CHECK_DEADLOCK FALSE
