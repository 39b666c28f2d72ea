--------------------------- MODULE SurfTrace ---------------------------
EXTENDS Surf, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == SurfInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- SurfBad, TPost <- SurfPost
=============================================================================
