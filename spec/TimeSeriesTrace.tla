------------------------- MODULE TimeSeriesTrace -------------------------
EXTENDS TimeSeries, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == TsInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- TsBad, TPost <- TsPost
=============================================================================
