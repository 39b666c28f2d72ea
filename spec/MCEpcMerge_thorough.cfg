SPECIFICATION Spec
CONSTANTS MaxId = 4
 MaxCopies = 2
 KINDS = {"BoundaryFeature", "RockFluidUnitFeature", "GenericProperty"}
 TITLES = {"t"}
INVARIANTS MergeMeets MergeIdempotent TargetClosed
CHECK_DEADLOCK FALSE
