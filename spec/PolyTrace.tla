----------------------------- MODULE PolyTrace -----------------------------
EXTENDS Poly, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == PInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- PBad, TPost <- PPost
=============================================================================
