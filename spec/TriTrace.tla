--------------------------- MODULE TriTrace ---------------------------
EXTENDS Tri, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == TriInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- TriBad, TPost <- TriPost
=============================================================================
