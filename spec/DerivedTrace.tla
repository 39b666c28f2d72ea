------------------------- MODULE DerivedTrace -------------------------
EXTENDS Derived, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == DerivedInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- DerivedBad, TPost <- DerivedPost
=============================================================================
