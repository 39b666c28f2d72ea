------------------------- MODULE PropArrTrace -------------------------
EXTENDS PropArr, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == AInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- ABad, TPost <- APost
=============================================================================
