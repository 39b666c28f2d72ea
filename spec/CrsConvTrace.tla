--------------------------- MODULE CrsConvTrace ---------------------------
EXTENDS CrsConv, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == CrsConvInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- CrsConvBad, TPost <- CrsConvPost
=============================================================================
