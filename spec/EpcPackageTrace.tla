-------------------------- MODULE EpcPackageTrace --------------------------
EXTENDS EpcPackage, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == EmptyP
INSTANCE TraceBase WITH TInit <- CInit, TBad <- PBad, TPost <- PNext
=============================================================================
