--------------------------- MODULE EpcQueryTrace ---------------------------
EXTENDS EpcQuery, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == EmptyQ
INSTANCE TraceBase WITH TInit <- CInit, TBad <- QBad, TPost <- QPost
=============================================================================
