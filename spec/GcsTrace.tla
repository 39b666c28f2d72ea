------------------------- MODULE GcsTrace -------------------------
EXTENDS Gcs, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == GcsInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- GcsBad, TPost <- GcsPost
=============================================================================
