----------------------------- MODULE DelaunayTrace -----------------------------
EXTENDS Delaunay, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == DInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- DBad, TPost <- DPost
=============================================================================
