------------------------- MODULE StringLookupTrace -------------------------
EXTENDS StringLookup, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == LInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- LBad, TPost <- LPost
=============================================================================
