---------------------------- MODULE EpcCatalogue ----------------------------
(* The in-memory catalogue of a RESQML model and the package on disk.       *)
(*                                                                          *)
(* A catalogue holds parts (objects), each with a class, a title, extra     *)
(* metadata, the set of objects its xml refers to (hard references) and,    *)
(* usually, a relationships part listing related objects with a role.       *)
(* Relations seen by a user are derived from those: mode 0 (referenced by), *)
(* mode 1 (referencing), mode 2 (only in relationships parts).              *)
(*                                                                          *)
(* The specification is written as a transition function Post(s, e) with an *)
(* enabling predicate Enabled(s, e), used both by the exhaustive model      *)
(* (MCEpcCatalogue) and by the validation of traces of the real code        *)
(* (EpcCatalogueTrace).                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in DOMAIN q}
CountIn(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A x \in Range(p) \cup Range(q) : CountIn(p, x) = CountIn(q, x)

\* function with one key set or removed
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]

EmptyCat == [parts |-> <<>>, rels |-> <<>>, disk |-> [saved |-> FALSE], dangled |-> FALSE, stale |-> FALSE, modified |-> TRUE]

Present(s) == DOMAIN s.parts
HasRp(s, a) == a \in DOMAIN s.rels
RelsOf(s, a) == IF HasRp(s, a) THEN s.rels[a] ELSE <<>>
Targets(s, a) == {RelsOf(s, a)[i][1] : i \in DOMAIN RelsOf(s, a)}

\* ---- relations as a user sees them
Ref(s, a)   == IF a \in Present(s) THEN s.parts[a].refs \cap Present(s) ELSE {}
RefBy(s, a) == {b \in Present(s) : a \in s.parts[b].refs}
Soft(s, a)  == {b \in Present(s) \ (Ref(s, a) \cup RefBy(s, a)) : b \in Targets(s, a) \/ a \in Targets(s, b)}
Related(s, a) == Ref(s, a) \cup RefBy(s, a) \cup Soft(s, a)
Dangling(s) == \E a \in Present(s) : ~(s.parts[a].refs \subseteq Present(s))
DanglingRel(s) == \E a \in Present(s) : ~(Targets(s, a) \subseteq Present(s))

\* ---- relationship entries
AddRel(rels, a, b, role, avoid) ==
    IF avoid /\ \E i \in DOMAIN rels[a] : rels[a][i][1] = b
    THEN rels
    ELSE [rels EXCEPT ![a] = Append(@, <<b, role>>)]
AddPair(rels, a, ra, b, rb, avoid) == AddRel(AddRel(rels, a, b, ra, avoid), b, a, rb, avoid)

RECURSIVE RelateAll(_, _, _)
RelateAll(rels, a, refs) ==
    IF refs = <<>> THEN rels
    ELSE RelateAll(AddPair(rels, a, "destinationObject", Head(refs), "sourceObject", TRUE), a, Tail(refs))

DropTarget(q, b) == SelectSeq(q, LAMBDA r : r[1] # b)

\* ---- enabling
Enabled(s, e) ==
    CASE e.op = "new"    -> e.id \notin Present(s) /\ Range(e.refs) \subseteq Present(s)
                            /\ (e.rel => \A r \in Range(e.refs) : HasRp(s, r))
      [] e.op = "copy"   -> e.id \in Present(s) /\ e.new \notin Present(s)
      [] e.op = "relate" -> e.a # e.b /\ {e.a, e.b} \subseteq Present(s) /\ HasRp(s, e.a) /\ HasRp(s, e.b)
      [] e.op = "remove" -> e.id \in Present(s)
      [] e.op = "setsrc" -> e.id \in Present(s)
      [] e.op = "rmext"  -> e.id \in Present(s)
      [] e.op = "store"  -> TRUE
      [] e.op = "reopen" -> s.disk.saved
      [] OTHER -> FALSE

\* ---- transitions
NewPart(s, e) ==
    [s EXCEPT !.parts = With(@, e.id, [kind |-> e.kind, title |-> e.title, extra |-> Range(e.extra), refs |-> Range(e.refs)]),
              !.rels  = LET r0 == With(@, e.id, <<>>) IN IF e.rel THEN RelateAll(r0, e.id, e.refs) ELSE r0,
              !.modified = TRUE]

\* a copy of a part that refers to a removed part brings the absent identifier back among the relations
CopyPart(s, e) == [s EXCEPT !.parts = With(@, e.new, s.parts[e.id]), !.modified = TRUE,
                            !.stale = @ \/ ~(s.parts[e.id].refs \subseteq Present(s))]

Relate(s, e) == [s EXCEPT !.rels = AddPair(@, e.a, e.ra, e.b, e.rb, e.avoid), !.modified = TRUE]

RemovePart(s, e) ==
    LET s1 == [s EXCEPT !.parts = Without(@, e.id),
                        !.rels  = IF e.rr
                                  THEN Without([a \in DOMAIN @ |-> DropTarget(@[a], e.id)], e.id)
                                  ELSE @,
                        !.modified = TRUE]
    IN [s1 EXCEPT !.dangled = @ \/ Dangling(s1)]

SetSource(s, e) == [s EXCEPT !.parts[e.id].extra = {x \in @ : x[1] # "source"} \cup {<<"source", e.value>>},
                             !.modified = TRUE]
RemoveExtra(s, e) == [s EXCEPT !.parts[e.id].extra = {}, !.modified = TRUE]

Store(s, e) == IF e.only /\ ~s.modified THEN s
               ELSE [s EXCEPT !.disk = [saved |-> TRUE, parts |-> s.parts, rels |-> s.rels], !.modified = FALSE]
Reopen(s) == [s EXCEPT !.parts = s.disk.parts, !.rels = s.disk.rels, !.modified = FALSE,
                       !.dangled = @ \/ Dangling(s.disk) \/ DanglingRel(s.disk),
                       !.stale = @ \/ Dangling(s.disk) \/ DanglingRel(s.disk)]

Post(s, e) ==
    CASE e.op = "new"    -> NewPart(s, e)
      [] e.op = "copy"   -> CopyPart(s, e)
      [] e.op = "relate" -> Relate(s, e)
      [] e.op = "remove" -> RemovePart(s, e)
      [] e.op = "setsrc" -> SetSource(s, e)
      [] e.op = "rmext"  -> RemoveExtra(s, e)
      [] e.op = "store"  -> Store(s, e)
      [] e.op = "reopen" -> Reopen(s)

\* ---- what the user sees of one identifier
Count(s, k) == Cardinality({a \in Present(s) : s.parts[a].kind = k})
Kinds(s) == {s.parts[a].kind : a \in Present(s)}

\* names reported: exactly the related parts, and no removed part unless a dangling reference was read back in
NamesBad(s, q, exact) == \/ Range(q) \cap Present(s) # exact
                         \/ ~s.stale /\ ~(Range(q) \subseteq Present(s))
ViewBad(s, o) ==
    LET a == o.id
        p == a \in Present(s)
    IN  (IF o.present # p \/ o.listed # p \/ o.part # p THEN {"uuid_catalogued_iff_part_present"} ELSE {})
        \cup (IF p /\ o.part /\
                 (o.back # TRUE \/ o.kind # s.parts[a].kind \/ o.title # s.parts[a].title)
              THEN {"part_type_title_uuid_agree"} ELSE {})
        \cup (IF ~p /\ (o.back # FALSE \/ o.kind # "" \/ o.title # "" \/ o.rp # FALSE \/ o.extra # <<>> \/ o.rels # <<>>)
              THEN {"removed_part_leaves_trace"} ELSE {})
        \cup (IF p /\ Range(o.extra) # s.parts[a].extra THEN {"extra_metadata"} ELSE {})
        \cup (IF p /\ (Range(o.r0) # Ref(s, a)   \/ NamesBad(s, o.i0, Ref(s, a)))   THEN {"referenced_parts"} ELSE {})
        \cup (IF p /\ (Range(o.r1) # RefBy(s, a) \/ NamesBad(s, o.i1, RefBy(s, a))) THEN {"referencing_parts"} ELSE {})
        \cup (IF p /\ (Range(o.r2) # Soft(s, a)  \/ NamesBad(s, o.i2, Soft(s, a)))  THEN {"softly_related_parts"} ELSE {})
        \cup (IF p /\ Range(o.rall) # Related(s, a) THEN {"related_parts"} ELSE {})
        \cup (IF Len(o.r0) # Cardinality(Range(o.r0)) \/ Len(o.r1) # Cardinality(Range(o.r1))
                 \/ Len(o.r2) # Cardinality(Range(o.r2)) THEN {"relation_listed_once"} ELSE {})
        \cup (IF p /\ (o.rp # HasRp(s, a) \/ ~SameBag(o.rels, RelsOf(s, a))) THEN {"relationship_entries"} ELSE {})

CatBad(s, o) ==
    (IF Range(o.ids) # Present(s) \/ Len(o.ids) # Cardinality(Present(s)) THEN {"parts_listed_once_each"} ELSE {})
    \cup (IF o.n # Cardinality(Present(s)) THEN {"number_of_parts"} ELSE {})
    \cup (IF Range(o.counts) # {<<k, Count(s, k)>> : k \in Kinds(s)} \/ Len(o.counts) # Cardinality(Kinds(s))
          THEN {"counts_by_type"} ELSE {})
    \cup (IF ~s.dangled /\ o.chk # "ok" THEN {"catalogue_self_check"} ELSE {})
    \cup UNION {ViewBad(s, o.at[i]) : i \in DOMAIN o.at}
=============================================================================
