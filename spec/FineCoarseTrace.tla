------------------------- MODULE FineCoarseTrace -------------------------
EXTENDS FineCoarse, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == FcInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- FcBad, TPost <- FcPost
=============================================================================
