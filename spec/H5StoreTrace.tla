--------------------------- MODULE H5StoreTrace ---------------------------
EXTENDS H5Store, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == NoStore
INSTANCE TraceBase WITH TInit <- CInit, TBad <- HBad, TPost <- HPost
=============================================================================
