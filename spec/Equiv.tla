------------------------------- MODULE Equiv -------------------------------
(* When two objects of the same class count as the same thing.  An object   *)
(* is [kind, title, vary, extra, refs]: vary is the tuple of class specific *)
(* attributes that take part in the comparison.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Features == {"OrganizationFeature", "GeobodyFeature", "BoundaryFeature", "FrontierFeature", "GeologicUnitFeature", "FluidBoundaryFeature",
             "RockFluidUnitFeature", "TectonicBoundaryFeature", "GeneticBoundaryFeature", "WellboreFeature"}
Interpretations == {"FaultInterpretation", "EarthModelInterpretation", "HorizonInterpretation", "GeobodyBoundaryInterpretation",
                    "GeobodyInterpretation", "WellboreInterpretation"}
Others == {"LocalDepth3dCrs", "LocalTime3dCrs", "TimeSeries", "StringTableLookup", "PropertyKind"}
Consolidatable == Features \cup Interpretations \cup Others
TitleMatters(k) == k \notin {"LocalDepth3dCrs", "LocalTime3dCrs", "TimeSeries"}
ExtraMatters(k) == k \notin {"TimeSeries", "StringTableLookup"}
RefsMatter(k) == k \in Interpretations \cup {"RockFluidUnitFeature"}

\* P and Q are the maps from identifiers to objects of the two models; the same identifier is the same object
RECURSIVE Same(_, _, _, _)
Same(P, a, Q, b) ==
    /\ P[a].kind = Q[b].kind
    /\ \/ a = b
       \/ /\ TitleMatters(P[a].kind) => P[a].title = Q[b].title
          /\ P[a].vary = Q[b].vary
          /\ ExtraMatters(P[a].kind) => P[a].extra = Q[b].extra
          /\ RefsMatter(P[a].kind) => /\ Len(P[a].refs) = Len(Q[b].refs)
                                      /\ \A i \in DOMAIN P[a].refs : Same(P, P[a].refs[i], Q, Q[b].refs[i])
Equivalent(P, a, Q, b) == P[a].kind \in Consolidatable /\ Same(P, a, Q, b)
=============================================================================
