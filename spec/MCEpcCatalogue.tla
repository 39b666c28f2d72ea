--------------------------- MODULE MCEpcCatalogue ---------------------------
(* Exhaustive model of EpcCatalogue at small constants.                     *)
EXTENDS EpcCatalogue, Json
CONSTANTS Ids, KindSet, MaxLen, Gen

VARIABLES s, used, hist
vars == <<s, used, hist>>

KindReq == [k \in KindSet |->
    CASE k = "FaultInterpretation" -> "TectonicBoundaryFeature"
      [] k = "EarthModelInterpretation" -> "OrganizationFeature"
      [] k = "MdDatum" -> "LocalDepth3dCrs"
      [] k = "WellboreInterpretation" -> "WellboreFeature"
      [] OTHER -> "none"]
Free(k) == k \in {"GenericA", "GenericB"}

SeqOf(S) == LET RECURSIVE F(_) 
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
            IN F(S)
RefChoices(k) ==
    IF Free(k) THEN {SeqOf(R) : R \in {R \in SUBSET Present(s) : Cardinality(R) <= 3}}
    ELSE IF KindReq[k] = "none" THEN {<<>>}
    ELSE {<<r>> : r \in {r \in Present(s) : s.parts[r].kind = KindReq[k]}}

\* identifiers are used in order (they are interchangeable)
NextId == CHOOSE n \in Ids \ used : \A m \in Ids \ used : n <= m
HasFresh == Ids \ used # {}
TitleOf(n) == IF n % 2 = 0 THEN "even" ELSE "odd"
Extras == {<<>>, << <<"k", "v1">>, <<"source", "lab">> >>}

Ev(f) == IF Gen THEN Append(hist, f) ELSE hist
Do(e) == /\ Enabled(s, e)
         /\ s' = Post(s, e)
         /\ hist' = Ev(e)
New(n, k, refs, rel, ex) ==
    /\ Do([op |-> "new", id |-> n, kind |-> k, title |-> TitleOf(n), extra |-> ex, refs |-> refs, rel |-> rel])
    /\ used' = used \cup {n}
Copy(a, n) == /\ Do([op |-> "copy", id |-> a, new |-> n]) /\ used' = used \cup {n}
RelatePair(a, b, av) ==
    /\ Do([op |-> "relate", a |-> a, ra |-> "sourceObject", b |-> b, rb |-> "destinationObject", avoid |-> av])
    /\ UNCHANGED used
RelatePair2(a, b) ==
    /\ Do([op |-> "relate", a |-> a, ra |-> "destinationObject", b |-> b, rb |-> "sourceObject", avoid |-> TRUE])
    /\ UNCHANGED used
Remove(a, rr) == Do([op |-> "remove", id |-> a, rr |-> rr]) /\ UNCHANGED used
SetSrc(a) == Do([op |-> "setsrc", id |-> a, value |-> "survey"]) /\ UNCHANGED used
RmExt(a) == Do([op |-> "rmext", id |-> a]) /\ UNCHANGED used
StoreIt(o) == Do([op |-> "store", only |-> o]) /\ UNCHANGED used
ReopenIt == Do([op |-> "reopen"]) /\ UNCHANGED used

Init == s = EmptyCat /\ used = {} /\ hist = <<>>
\* when behaviours are generated, one alternative is drawn at random; when the model is checked, all are taken
Pick(S) == IF Gen /\ S # {} THEN {RandomElement(S)} ELSE S
NewAny == /\ HasFresh
          /\ \E k \in Pick({k \in KindSet : RefChoices(k) # {}}) : \E refs \in Pick(RefChoices(k)) :
             \E rel \in Pick(BOOLEAN) : \E ex \in Pick(Extras) :
                New(NextId, k, refs, rel /\ \A r \in Range(refs) : HasRp(s, r), ex)
CopyAny == HasFresh /\ \E a \in Pick(Present(s)) : Copy(a, NextId)
RpParts == {a \in Present(s) : HasRp(s, a)}
Pairs == {p \in RpParts \X RpParts : p[1] # p[2]}
RelateAny == \E p \in Pick(Pairs) : \E m \in Pick({1, 2, 3}) :
                CASE m = 1 -> RelatePair(p[1], p[2], TRUE)
                  [] m = 2 -> RelatePair(p[1], p[2], FALSE)
                  [] m = 3 -> RelatePair2(p[1], p[2])
RemoveAny == \E a \in Pick(Present(s)) : \E rr \in Pick(BOOLEAN) : Remove(a, rr)
SrcAny == \E a \in Pick(Present(s)) : SetSrc(a)
RmExtAny == \E a \in Pick(Present(s)) : RmExt(a)
StoreAny == \E o \in Pick(BOOLEAN) : StoreIt(o)

Classes == (IF HasFresh THEN {"new", "new2", "new3"} ELSE {})
           \cup (IF HasFresh /\ Present(s) # {} THEN {"copy"} ELSE {})
           \cup (IF Pairs # {} THEN {"relate", "relate2"} ELSE {})
           \cup (IF Cardinality(Present(s)) > 2 THEN {"remove", "remove2"} ELSE {})
           \cup (IF Present(s) # {} THEN {"setsrc", "rmext"} ELSE {})
           \cup {"store"} \cup (IF s.disk.saved THEN {"reopen"} ELSE {})
GenNext == /\ Len(hist) < MaxLen
           /\ \E c \in Pick(Classes) :
                CASE c \in {"new", "new2", "new3"} -> NewAny
                  [] c = "copy" -> CopyAny
                  [] c \in {"relate", "relate2"} -> RelateAny
                  [] c \in {"remove", "remove2"} -> RemoveAny
                  [] c = "setsrc" -> SrcAny
                  [] c = "rmext" -> RmExtAny
                  [] c = "store" -> StoreAny
                  [] c = "reopen" -> ReopenIt
Next == NewAny \/ CopyAny \/ RelateAny \/ RemoveAny \/ SrcAny \/ RmExtAny \/ StoreAny \/ ReopenIt

\* ---- what must hold of the design
TypeOK == /\ DOMAIN s.parts \subseteq used
          /\ \A a \in Present(s) : a \notin s.parts[a].refs
RelationsSymmetric ==
    \A a, b \in Present(s) : /\ (b \in Ref(s, a)) = (a \in RefBy(s, b))
                             /\ (b \in Soft(s, a)) = (a \in Soft(s, b))
                             /\ (b \in Related(s, a)) = (a \in Related(s, b))
ModesDisjoint == \A a \in Present(s) : /\ Soft(s, a) \cap (Ref(s, a) \cup RefBy(s, a)) = {}
                                       /\ Related(s, a) \subseteq Present(s)
NoSelf == \A a \in Present(s) : a \notin Related(s, a)
SaveLoses == s.disk.saved /\ ~s.modified => LET r == Reopen(s) IN
                /\ r.parts = s.parts /\ \A a \in Present(s) : Related(r, a) = Related(s, a)
RelsPaired == \A a \in Present(s) : \A i \in DOMAIN RelsOf(s, a) :
                 LET b == RelsOf(s, a)[i][1] IN b \in Present(s) /\ HasRp(s, b) => a \in Targets(s, b)
Bound == TLCGet("level") <= MaxLen /\ \A a \in DOMAIN s.rels : Len(s.rels[a]) <= 3
View == <<s, used>>

\* printing of behaviours, used with -simulate
Emit == Gen /\ Len(hist) = MaxLen => PrintT("GEN " \o ToJson(hist))
=============================================================================
