----------------------------- MODULE LinesTrace -----------------------------
EXTENDS Lines, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == LInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- LBad, TPost <- LPost
=============================================================================
