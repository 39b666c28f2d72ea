----------------------------- MODULE FacesTrace -----------------------------
EXTENDS Faces, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == FInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- FBad, TPost <- FPost
=============================================================================
