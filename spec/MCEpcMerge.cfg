SPECIFICATION Spec
CONSTANTS MaxId = 3
 MaxCopies = 2
 KINDS = {"BoundaryFeature", "RockFluidUnitFeature", "GenericProperty"}
 TITLES = {"t", "u"}
INVARIANTS MergeMeets MergeIdempotent TargetClosed
CHECK_DEADLOCK FALSE
