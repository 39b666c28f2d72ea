------------------------- MODULE EpcCatalogueTrace -------------------------
EXTENDS EpcCatalogue, Json, IOUtils
VARIABLES t, l, s, v

CInit(i) == EmptyCat
CBad(st, e) ==
    IF ~Enabled(st, e) THEN {"driver_left_domain"}
    ELSE IF e.res.k # "ok" THEN {"operation_raises"}
    ELSE CatBad(Post(st, e), e.obs)
INSTANCE TraceBase WITH TInit <- CInit, TBad <- CBad, TPost <- Post
=============================================================================
