------------------------------ MODULE EpcMerge ------------------------------
(* Copying objects from one model (the source) to another (the target).     *)
(* A model is [parts, soft]: parts maps an identifier to an object, soft is *)
(* the set of pairs {a, b} related only through relationship entries.       *)
(* An object is [kind, title, vary, extra, refs, arr, real, fp, prop]: refs *)
(* is the sequence of references in its xml, fp identifies its other xml    *)
(* content, prop tells whether it is a property (has a realization number). *)
EXTENDS Equiv

Range(q) == {q[i] : i \in DOMAIN q}
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
NoModel == [parts |-> <<>>, soft |-> {}]
Ids(M) == DOMAIN M.parts
Hard(M) == {{a, b} : <<a, b>> \in {<<x, y>> \in Ids(M) \X Ids(M) : y \in Range(M.parts[x].refs)}}
Closed(M) == \A a \in Ids(M) : Range(M.parts[a].refs) \subseteq Ids(M)
Rel(M) == Hard(M) \cup M.soft

\* all objects reachable from those in X by references, within model M
RECURSIVE Reach(_, _)
Reach(M, X) == LET Y == X \cup UNION {Range(M.parts[a].refs) \cap Ids(M) : a \in X \cap Ids(M)}
               IN IF Y = X THEN X ELSE Reach(M, Y)

\* z of the source stands for y of the target
Stand(S, O, force, z, y) == z = y \/ (z \in DOMAIN force /\ force[z] = y)
    \/ (z \in Ids(S) /\ \E w \in DOMAIN force \cap Ids(S) : force[w] = y /\ Equivalent(S.parts, z, S.parts, w))
    \/ (z \in Ids(S) /\ y \in Ids(O) /\ Equivalent(S.parts, z, O.parts, y))

\* T the target before, O the target after copying the objects in P (asked for) from S; the clauses that fail
MergeBad(S, T, O, P, cons, real, force) ==
    LET New == Ids(O) \ Ids(T)
        Present(x) == S.parts[x]
    IN (IF ~(Ids(T) \subseteq Ids(O)) THEN {"resident_lost"} ELSE {})
       \cup (IF \E a \in Ids(T) \cap Ids(O) : O.parts[a] # T.parts[a] THEN {"resident_altered"} ELSE {})
       \cup (IF ~(New \subseteq Ids(S)) THEN {"invented_object"} ELSE
             (IF \E x \in New : \/ O.parts[x].kind # S.parts[x].kind \/ O.parts[x].fp # S.parts[x].fp
                                \/ O.parts[x].title # S.parts[x].title \/ O.parts[x].extra # S.parts[x].extra
              THEN {"copied_content"} ELSE {})
             \cup (IF \E x \in New : O.parts[x].arr # S.parts[x].arr THEN {"copied_array"} ELSE {})
             \cup (IF \E x \in New : O.parts[x].real # (IF real >= 0 /\ S.parts[x].prop THEN real ELSE S.parts[x].real) THEN {"realization_number"} ELSE {})
             \cup (IF \E x \in New : Len(O.parts[x].refs) # Len(S.parts[x].refs) THEN {"references"} ELSE
                   IF \E x \in New : \E i \in DOMAIN O.parts[x].refs :
                        LET z == S.parts[x].refs[i]
                            y == O.parts[x].refs[i]
                        IN IF z \in Ids(O) THEN y # z ELSE ~(cons /\ Stand(S, O, force, z, y))
                   THEN {"references"} ELSE {})
             \cup (IF cons /\ \E x \in New : (x \in DOMAIN force \/ \E y \in Ids(O) \ {x} : Reach(S, {x}) \cap DOMAIN force = {} /\ Equivalent(S.parts, x, O.parts, y))
                   THEN {"duplicate_of_equivalent"} ELSE {})
             \cup (IF ~(New \subseteq Reach([O EXCEPT !.parts = [x \in New |-> O.parts[x]]], P \cap New)) THEN {"not_needed"} ELSE {}))
       \cup (IF ~Closed(O) THEN {"dangling_reference"} ELSE {})
       \cup (IF \E p \in P : p \notin Ids(O) /\ ~(cons /\ \E y \in Ids(O) : Stand(S, O, force, p, y)) THEN {"not_copied"} ELSE {})
       \cup (IF ~(T.soft \subseteq O.soft) THEN {"soft_relation_lost"} ELSE {})
       \cup (IF \E q \in S.soft : q \subseteq Ids(O) /\ q \cap New # {} /\ q \notin Rel(O) THEN {"soft_relation_missing"} ELSE {})
       \cup (IF cons /\ \E q \in S.soft : \E c \in q \cap New : \E d \in q \ {c} :
                   /\ d \notin Ids(O) /\ Reach(S, {d}) \cap DOMAIN force = {}
                   /\ \E y \in Ids(T) : Equivalent(S.parts, d, T.parts, y)
                   /\ ~ \E y \in Ids(O) : Stand(S, O, force, d, y) /\ {c, y} \in Rel(O)
             THEN {"soft_relation_of_equivalent"} ELSE {})
       \cup (IF \E q \in O.soft \ T.soft :
                   \A r \in Rel(S) : \A c \in r : \A d \in r : \A a \in q : \A b \in q :
                        ~(c # d /\ a # b /\ Stand(S, O, force, c, a) /\ Stand(S, O, force, d, b))
             THEN {"soft_relation_invented"} ELSE {})

\* ---- what is observed of a model: sequence of [id, kind, ..., r0, r1, r2]
ObsModel(o) ==
    LET n(a) == CHOOSE i \in DOMAIN o : o[i].id = a
        ids == {o[i].id : i \in DOMAIN o}
    IN [parts |-> [a \in ids |-> [kind |-> o[n(a)].kind, title |-> o[n(a)].title, vary |-> o[n(a)].vary, extra |-> Range(o[n(a)].extra),
                                  refs |-> o[n(a)].refs, arr |-> o[n(a)].arr, real |-> o[n(a)].real, fp |-> o[n(a)].fp, prop |-> o[n(a)].prop]],
        soft |-> UNION {{{o[i].id, b} : b \in Range(o[i].r2)} : i \in DOMAIN o}]
ObsBad(o, M, rels_matter) ==
    (IF Cardinality({o[i].id : i \in DOMAIN o}) # Len(o) THEN {"listed_twice"} ELSE {})
    \cup (IF \E i \in DOMAIN o : LET a == o[i].id IN
               \/ Range(o[i].r0) # Range(o[i].refs) \cap Ids(M)
               \/ Range(o[i].r1) # {b \in Ids(M) : a \in Range(M.parts[b].refs)}
          THEN {"relations_of_references"} ELSE {})
    \cup (IF \E i, j \in DOMAIN o : (o[j].id \in Range(o[i].r2)) # (o[i].id \in Range(o[j].r2)) THEN {"one_sided_relation"} ELSE {})
    \cup (IF \E i \in DOMAIN o : Range(o[i].r2) \cap (Range(o[i].r0) \cup Range(o[i].r1)) # {} THEN {"relation_listed_as_two"} ELSE {})
    \cup (IF \E i \in DOMAIN o : ~o[i].h5ok THEN {"array_file_reference"} ELSE {})
    \cup (IF \E i \in DOMAIN o : ~o[i].relok THEN {"dangling_relationship"} ELSE {})

\* ---- events
EmptyM == [src |-> NoModel, tgt |-> NoModel, force |-> <<>>]
Stored(e) == [kind |-> e.kind, title |-> e.title, vary |-> e.vary, extra |-> Range(e.extra), refs |-> e.refs, arr |-> e.arr, real |-> e.real, fp |-> e.fp, prop |-> e.prop]
Add(M, e) == [M EXCEPT !.parts = With(@, e.id, Stored(e))]
Pair(M, a, b) == IF {a, b} \in Hard(M) THEN M ELSE [M EXCEPT !.soft = @ \cup {{a, b}}]
Drop(M, a) == [parts |-> [x \in Ids(M) \ {a} |-> M.parts[x]], soft |-> {q \in M.soft : a \notin q}]

MOk(s, e) ==
    CASE e.op = "new" -> /\ e.id \notin Ids(s[e.m]) /\ Range(e.refs) \subseteq Ids(s[e.m])
      [] e.op = "relate" -> e.a # e.b /\ {e.a, e.b} \subseteq Ids(s[e.m])
      [] e.op = "remove" -> e.id \in Ids(s[e.m]) /\ \A b \in Ids(s[e.m]) : e.id \notin Range(s[e.m].parts[b].refs)
      [] e.op = "force" -> e.a \in Ids(s.src) \ Ids(s.tgt) /\ e.b \in Ids(s.tgt) \ Ids(s.src) /\ s.src.parts[e.a].kind = s.tgt.parts[e.b].kind
                           /\ e.b \notin DOMAIN s.force
      [] e.op = "copy" -> e.p \in Ids(s.src)
      [] e.op = "copyall" -> TRUE
Asked(s, e) == IF e.op = "copy" THEN {e.p} ELSE Ids(s.src)
Copies(e) == e.op \in {"copy", "copyall"}

\* the observation decides which of the allowed outcomes happened
MPost(s, e) ==
    CASE e.op = "new" -> [s EXCEPT ![e.m] = Add(@, e)]
      [] e.op = "relate" -> [s EXCEPT ![e.m] = Pair(@, e.a, e.b)]
      [] e.op = "remove" -> [s EXCEPT ![e.m] = Drop(@, e.id),
                                      !.force = IF e.m = "src" THEN @ ELSE [x \in {y \in DOMAIN @ : @[y] # e.id} |-> @[x]]]
      [] e.op = "force" -> [s EXCEPT !.force = With(@, e.a, e.b)]
      [] Copies(e) -> [s EXCEPT !.tgt = ObsModel(e.obs.tgt)]

MBad(s, e) ==
    IF ~MOk(s, e) THEN {"driver_left_domain"}
    ELSE IF e.res.k # "ok" THEN {"operation_raises"}
    ELSE LET s2 == MPost(s, e)
             os == ObsModel(e.obs.src)
             ot == ObsModel(e.obs.tgt)
         IN ObsBad(e.obs.src, os, TRUE) \cup ObsBad(e.obs.tgt, ot, TRUE)
            \cup (IF os # s2.src THEN (IF Copies(e) THEN {"source_changed"} ELSE {"source_as_made"}) ELSE {})
            \cup (IF ~Copies(e) THEN (IF ot # s2.tgt THEN {"target_as_made"} ELSE {})
                  ELSE MergeBad(s.src, s.tgt, ot, Asked(s, e), e.cons, e.real, s.force)
                       \cup (IF e.op = "copy" /\ ~(e.res.part = e.p \/ (e.p \notin Ids(ot) /\ e.cons /\ e.res.part \in Ids(ot) /\ Stand(s.src, ot, s.force, e.p, e.res.part)))
                             THEN {"returned_object"} ELSE {})
                       \cup (IF e.op = "copy" /\ e.p \in Ids(ot) /\ e.res.part # e.p THEN {"returned_object"} ELSE {})
                       \cup (IF ot # s.tgt /\ ~e.res.modified THEN {"modified_flag"} ELSE {}))
=============================================================================
