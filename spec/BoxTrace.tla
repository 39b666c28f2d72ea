------------------------- MODULE BoxTrace -------------------------
EXTENDS Box, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == BoxInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- BoxBad, TPost <- BoxPost
=============================================================================
