--------------------------- MODULE LatticeTrace ---------------------------
EXTENDS Lattice, Json, IOUtils
VARIABLES t, l, s, v
CInit(i) == LatticeInit
INSTANCE TraceBase WITH TInit <- CInit, TBad <- LatticeBad, TPost <- LatticePost
=============================================================================
