---------------------------- MODULE ObjectsTrace ----------------------------
EXTENDS Objects, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == OInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- OBad, TPost <- OPost
=============================================================================
