------------------------- MODULE PropInheritTrace -------------------------
EXTENDS PropInherit, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == PropInheritInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- PropInheritBad, TPost <- PropInheritPost
=============================================================================
