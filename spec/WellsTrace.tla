----------------------------- MODULE WellsTrace -----------------------------
EXTENDS Wells, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == WInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- WBad, TPost <- WPost
=============================================================================
