--------------------------- MODULE GeomTrace ---------------------------
EXTENDS Geom, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == GeomInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- GeomBad, TPost <- GeomPost
=============================================================================
