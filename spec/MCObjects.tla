----------------------------- MODULE MCObjects -----------------------------
(* Histories of making objects of three classes with and without reuse.     *)
EXTENDS Objects
CONSTANTS MaxLen, Kinds, Titles, Values, Extras, Reuses

VARIABLES s, n, clean
vars == <<s, n, clean>>

FeatureOf(k) == CASE k = "FaultInterpretation" -> {"TectonicBoundaryFeature"} [] k = "GenericFeatureInterpretation" -> {"TectonicBoundaryFeature"} [] OTHER -> {}
RefSets(k) == IF FeatureOf(k) = {} THEN {<<>>} ELSE {<<i>> : i \in {j \in DOMAIN s.at : s.o[s.at[j]].kind \in FeatureOf(k)}}
Sfx(k) == IF k = "FaultInterpretation" THEN {"", "z"} ELSE {""}
Ttl(k) == IF k = "FaultInterpretation" THEN Titles \cup {""} ELSE Titles

Ev(k, t, x, v, ex, r, re, id) == [op |-> "make", kind |-> k, title |-> t, sfx |-> x, vary |-> v, extra |-> ex, refs |-> r, hod |-> <<>>, orig |-> "",
                                  reuse |-> re, id |-> n + 1, res |-> [k |-> "ok", id |-> id, added |-> IF id = n + 1 THEN 1 ELSE 0]]
Varies3(k) == IF k = "LocalDepth3dCrs" THEN {<<"m", "m", "True", "o", "0.0", "0.0", "0.0", v, "dega", "None">> : v \in Values} ELSE {<<v>> : v \in Values}

Init == s = OInit /\ n = 0 /\ clean = TRUE
Make == /\ n < MaxLen
        /\ \E k \in Kinds, ex \in Extras, re \in Reuses :
             \E t \in Ttl(k), x \in Sfx(k), v \in Varies3(k), r \in RefSets(k) :
               LET e0 == Ev(k, t, x, v, ex, r, re, n + 1)
                   F == Found(s, e0)
               IN \E id \in IF re /\ F # {} THEN F ELSE {n + 1} :
                    LET e == Ev(k, t, x, v, ex, r, re, id) IN
                    /\ OBad(s, e) = {}
                    /\ s' = OPost(s, e)
                    /\ n' = n + 1
                    /\ clean' = (clean /\ re)
Next == Make
Spec == Init /\ [][Next]_vars

Ids == DOMAIN s.o
\* equivalence is an equivalence relation
Reflexive == \A a \in Ids : Same(s.o, a, a, TRUE)
Symmetric == \A a, b \in Ids, d \in BOOLEAN : Same(s.o, a, b, d) => Same(s.o, b, a, d)
Transitive == \A a, b, c \in Ids : Same(s.o, a, b, TRUE) /\ Same(s.o, b, c, TRUE) => Same(s.o, a, c, TRUE)
\* leaving extra metadata aside can only find more
Weaker == \A a, b \in Ids : Same(s.o, a, b, TRUE) => Same(s.o, a, b, FALSE)
\* when reuse is always asked for, no two objects are equivalent
NoDuplicates == clean => \A a, b \in Ids : Same(s.o, a, b, TRUE) => a = b
\* everything referred to is there
Closed == \A a \in Ids : \A i \in DOMAIN s.o[a].refs : s.o[a].refs[i] \in Ids
Inv == Reflexive /\ Symmetric /\ Transitive /\ Weaker /\ NoDuplicates /\ Closed
=============================================================================
