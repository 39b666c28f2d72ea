--------------------------- MODULE EpcMergeTrace ---------------------------
EXTENDS EpcMerge, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == EmptyM
INSTANCE TraceBase WITH TInit <- CInit, TBad <- MBad, TPost <- MPost
=============================================================================
