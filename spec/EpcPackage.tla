----------------------------- MODULE EpcPackage -----------------------------
(* A model in memory, the packages on disk it is saved to and opened from,  *)
(* and the array files they use.                                            *)
(* State: the catalogue in memory, a fingerprint of the xml of each part,   *)
(* the name of the package and of the array file in use, and for every file *)
(* name the package (parts, relations, fingerprints, array file it names)   *)
(* and the arrays.  Array files are written at once, packages when saved.   *)
EXTENDS EpcCatalogue

NoPkg == [has |-> FALSE]
EmptyP == [cat |-> EmptyCat, fp |-> <<>>, name |-> "", h5 |-> "", target |-> "", full |-> TRUE, mod |-> FALSE, files |-> <<>>, h5s |-> <<>>, toks |-> <<>>]
Has(s, n) == n \in DOMAIN s.files
Pkg(s) == [parts |-> s.cat.parts, rels |-> s.cat.rels, fp |-> s.fp, h5 |-> s.target]
ArrOf(s, a) == IF a \in DOMAIN s.h5s[s.h5] THEN s.h5s[s.h5][a] ELSE <<>>

Ids(s) == DOMAIN s.cat.parts

\* ---- building blocks
SaveTo(s, n) == [s EXCEPT !.files = With(@, n, Pkg(s)), !.name = n, !.mod = FALSE]
\* override mode full: the array file has the name of the package; dir: the name recorded in the package
Effective(s, n, ovr) == IF ovr = "full" THEN n ELSE s.files[n].h5
Usable(s, n, ovr) == /\ Has(s, n) /\ Effective(s, n, ovr) \in DOMAIN s.h5s
                     /\ \A a \in DOMAIN s.files[n].parts : s.files[n].parts[a].kind = "PointSetRepresentation" => a \in DOMAIN s.h5s[Effective(s, n, ovr)]
Load(s, n, full, ovr) ==
    LET p == s.files[n]
        base == [EmptyCat EXCEPT !.parts = p.parts, !.rels = p.rels]
    IN [s EXCEPT !.cat = base, !.fp = p.fp, !.name = n, !.target = p.h5, !.h5 = Effective(s, n, ovr), !.full = full, !.mod = FALSE]
Fresh(s, n) == [s EXCEPT !.cat = EmptyCat, !.fp = <<>>, !.name = n, !.h5 = n, !.target = n, !.full = TRUE, !.mod = TRUE,
                         !.files = Without(@, n), !.h5s = With(@, n, <<>>)]
DuplicateFiles(s, src, n) == [s EXCEPT !.files = With(@, n, @[src]), !.h5s = With(@, n, @[src])]
WriteArr(s, a, arr) == IF arr = <<>> THEN s ELSE [s EXCEPT !.h5s[s.h5] = With(@, a, arr)]
Edit(s, e) ==
    CASE e.op = "new" -> WriteArr([s EXCEPT !.cat = NewPart(@, e), !.fp = With(@, e.id, e.fp), !.mod = TRUE], e.id, e.arr)
      [] e.op = "relate" -> [s EXCEPT !.cat = Relate(@, e), !.mod = @ \/ Relate(s.cat, e).rels # s.cat.rels]
      [] e.op = "remove" -> [s EXCEPT !.cat = RemovePart(@, e), !.fp = Without(@, e.id), !.mod = TRUE]
      [] e.op = "setsrc" -> [s EXCEPT !.cat = SetSource(@, e), !.fp = With(@, e.id, e.fp), !.mod = TRUE]
      [] e.op = "rmext" -> [s EXCEPT !.cat = RemoveExtra(@, e), !.fp = With(@, e.id, e.fp), !.mod = TRUE]
      [] e.op = "patch" -> [s EXCEPT !.fp = With(@, e.id, e.fp), !.mod = TRUE]
      [] e.op = "copy" -> [s EXCEPT !.cat = CopyPart(@, e), !.fp = With(@, e.new, e.fp), !.mod = TRUE]
      [] e.op = "setarr" -> WriteArr(s, e.id, e.arr)
      [] e.op = "nothing" -> s

EditOk(s, e) ==   \* a relationship needs both objects to have a relationships part, which copies have not
    CASE e.op = "new" -> e.id \notin Ids(s) /\ Range(e.refs) \subseteq Ids(s) /\ (e.rel => \A r \in Range(e.refs) : HasRp(s.cat, r))
      [] e.op = "relate" -> e.a # e.b /\ {e.a, e.b} \subseteq Ids(s) /\ HasRp(s.cat, e.a) /\ HasRp(s.cat, e.b)
      [] e.op = "remove" -> e.id \in Ids(s) /\ \A b \in Ids(s) : e.id \notin s.cat.parts[b].refs
      [] e.op \in {"setsrc", "rmext", "patch"} -> e.id \in Ids(s)
      [] e.op = "copy" -> e.id \in Ids(s) /\ e.new \notin Ids(s) /\ s.cat.parts[e.id].kind # "PointSetRepresentation"
      [] e.op = "setarr" -> e.id \in Ids(s) /\ e.id \in DOMAIN s.h5s[s.h5]
      [] e.op = "nothing" -> TRUE

\* no other package depends on the arrays of that name
Unused(s, n) == (\A m \in DOMAIN s.files : m # n => s.files[m].h5 # n) /\ (s.name # n => s.h5 # n)
Live(s) == s.name # "" /\ s.full

PEnabled(s, e) ==
    CASE e.op = "edit" -> Live(s) /\ EditOk(s, e.edit)
      [] e.op = "store" -> Live(s)
      [] e.op = "open" -> Usable(s, e.name, e.ovr)
      [] e.op = "copyopen" -> Usable(s, e.from, "full") /\ e.name # e.from /\ Unused(s, e.name)
      [] e.op = "create" -> Unused(s, e.name)
      [] e.op = "ctx" -> /\ (e.mode \in {"r", "rw", "read", "read/write"} => Usable(s, e.name, "full"))
                         /\ (e.mode \in {"c", "create"} => Unused(s, e.name))
      [] e.op = "read" -> Live(s)

\* the inside of a context manager
Entered(s, e) == IF e.mode \in {"c", "create"} THEN Fresh(s, e.name) ELSE Load(s, e.name, TRUE, "full")
Left(s, e) == IF e.mode \in {"r", "read"} \/ e.fail THEN s ELSE SaveTo(s, s.name)

PPost(s, e) ==
    CASE e.op = "edit" -> Edit(s, e.edit)
      [] e.op = "store" -> IF e.only /\ ~s.mod THEN s ELSE SaveTo(s, IF e.to = "" THEN s.name ELSE e.to)
      [] e.op = "open" -> Load(s, e.name, e.full, e.ovr)
      \* the copied package still names the array file it was copied from until the new model is saved
      [] e.op = "copyopen" -> [Load(DuplicateFiles(s, e.from, e.name), e.name, TRUE, "full") EXCEPT !.target = e.name, !.mod = TRUE]
      [] e.op = "create" -> Fresh(s, e.name)
      [] e.op = "ctx" -> Left(Edit(Entered(s, e), e.edit), e)
      [] e.op = "read" -> s

\* files an operation is allowed to write
WritesArr(d) == d.op = "setarr" \/ (d.op = "new" /\ d.arr # <<>>)
MayWritePkg(s, e) ==
    CASE e.op = "store" /\ ~(e.only /\ ~s.mod) -> {IF e.to = "" THEN s.name ELSE e.to}
      [] e.op \in {"copyopen", "create"} -> {e.name}
      [] e.op = "ctx" /\ e.mode \in {"c", "create"} -> {e.name}
      [] e.op = "ctx" /\ e.mode \in {"rw", "read/write"} /\ ~e.fail -> {e.name}
      [] OTHER -> {}
MayWriteArr(s, e) ==
    CASE e.op = "edit" /\ WritesArr(e.edit) -> {s.h5}
      [] e.op \in {"copyopen", "create"} -> {e.name}
      [] e.op = "ctx" -> (IF e.mode \in {"c", "create"} THEN {e.name} ELSE {}) \cup (IF WritesArr(e.edit) THEN {Entered(s, e).h5} ELSE {})
      [] OTHER -> {}

\* ---- what is seen in memory after the operation
MemBad(s, o) ==
    (IF ~SameBag(o.ids, SelectSeq(o.ids, LAMBDA a : a \in Ids(s))) \/ Range(o.ids) # Ids(s) \/ Len(o.ids) # Cardinality(Ids(s)) THEN {"objects"} ELSE {})
    \cup (IF o.modified # s.mod THEN {"modified_flag"} ELSE {})
    \cup (IF ~s.full THEN {} ELSE
          UNION {LET z == o.at[i]
                     a == z.id
                 IN IF a \notin Ids(s) THEN {"objects"}
                    ELSE (IF z.kind # s.cat.parts[a].kind THEN {"class"} ELSE {})
                         \cup (IF z.fp # s.fp[a] THEN {"xml_content"} ELSE {})
                         \cup (IF Range(z.r0) # Ref(s.cat, a) \/ Range(z.r1) # RefBy(s.cat, a) \/ Range(z.r2) # Soft(s.cat, a) THEN {"relations"} ELSE {})
                         \cup (IF ~SameBag(z.rels, RelsOf(s.cat, a)) THEN {"relationship_entries"} ELSE {})
                         \cup (IF z.arr # ArrOf(s, a) THEN {"array_data"} ELSE {})
                 : i \in DOMAIN o.at})

\* ---- a package, as found in the file
O(a) == "o" \o ToString(a)
R(a) == "r" \o ToString(a)
CType(k) == "application/x-resqml+xml;version=2.0;type=obj_" \o k
PkgBad(s, n, p) ==
    LET q == s.files[n]
        ms == Range(p.members)
        ov == {p.overrides[i][1] : i \in DOMAIN p.overrides}
        isrel == {R(a) : a \in DOMAIN q.rels} \cup {"rext", "rels"}
    IN (IF Len(p.members) # Cardinality(ms) THEN {"member_twice"} ELSE {})
       \cup (IF Len(p.overrides) # Cardinality(ov) THEN {"declared_twice"} ELSE {})
       \cup (IF ms # {O(a) : a \in DOMAIN q.parts} \cup isrel \cup {"types", "ext", "core"} THEN {"members"} ELSE {})
       \cup (IF ov # {O(a) : a \in DOMAIN q.parts} \cup {"ext", "core"} THEN {"declared_parts"} ELSE {})
       \cup (IF Range(p.overrides) # {<<O(a), CType(q.parts[a].kind)>> : a \in DOMAIN q.parts}
                                        \cup {<<"ext", "application/x-eml+xml;version=2.0;type=obj_EpcExternalPartReference">>,
                                              <<"core", "application/vnd.openxmlformats-package.core-properties+xml">>}
             THEN {"content_types"} ELSE {})
       \cup (IF \E i \in DOMAIN p.targets : p.targets[i] \notin ms THEN {"dangling_target"} ELSE {})
       \cup (IF p.h5 # q.h5 THEN {"array_file_named"} ELSE {})
       \cup (IF {<<p.parts[i].id, p.parts[i].fp>> : i \in DOMAIN p.parts} # {<<a, q.fp[a]>> : a \in DOMAIN q.parts} THEN {"saved_xml"} ELSE {})
       \cup (IF \E i \in DOMAIN p.parts : p.parts[i].id \in DOMAIN q.rels /\ ~SameBag(p.parts[i].rels, q.rels[p.parts[i].id]) THEN {"saved_relationships"} ELSE {})

\* o.files: <<name, token of the bytes, package or "same">>
DiskBad(s, s2, e, o) ==
    (IF {o.files[i].name : i \in DOMAIN o.files} # DOMAIN s2.files THEN {"package_files"} ELSE {})
    \cup (IF {o.h5s[i].name : i \in DOMAIN o.h5s} # DOMAIN s2.h5s THEN {"array_files"} ELSE {})
    \cup UNION {LET f == o.files[i]
                    n == f.name
                    old == IF n \in DOMAIN s.toks THEN s.toks[n] ELSE 0
                IN IF n \notin DOMAIN s2.files THEN {}
                   ELSE (IF n \notin MayWritePkg(s, e) /\ f.tok # old THEN {"package_rewritten"} ELSE {})
                        \cup (IF n \in DOMAIN s.files /\ s2.files[n] # s.files[n] /\ f.tok = old THEN {"package_not_written"} ELSE {})
                        \cup (IF f.tok # old /\ ~f.shown THEN {"driver"} ELSE {})
                        \cup (IF f.shown THEN PkgBad(s2, n, f.pkg) ELSE {})
                : i \in DOMAIN o.files}
    \cup UNION {LET f == o.h5s[i]
                    n == f.name
                    k == "h5:" \o n
                    old == IF k \in DOMAIN s.toks THEN s.toks[k] ELSE 0
                IN IF n \notin DOMAIN s2.h5s THEN {}
                   ELSE (IF n \notin MayWriteArr(s, e) /\ f.tok # old THEN {"array_file_rewritten"} ELSE {})
                        \cup (IF {<<f.arrays[j].id, f.arrays[j].arr>> : j \in DOMAIN f.arrays} # {<<a, s2.h5s[n][a]>> : a \in DOMAIN s2.h5s[n]} THEN {"array_file_content"} ELSE {})
                : i \in DOMAIN o.h5s}

PBad(s, e) ==
    IF ~PEnabled(s, e) \/ (e.op = "ctx" /\ ~EditOk(Entered(s, e), e.edit)) THEN {"driver_left_domain"}
    ELSE IF e.res.k # "ok" THEN {"operation_raises"}
    ELSE LET s2 == PPost(s, e) IN MemBad(s2, e.obs) \cup DiskBad(s, s2, e, e.obs)
PTok(o) == LET ks == {o.files[i].name : i \in DOMAIN o.files} \cup {"h5:" \o o.h5s[i].name : i \in DOMAIN o.h5s}
           IN [k \in ks |-> IF \E i \in DOMAIN o.files : o.files[i].name = k
                            THEN o.files[CHOOSE i \in DOMAIN o.files : o.files[i].name = k].tok
                            ELSE o.h5s[CHOOSE i \in DOMAIN o.h5s : ("h5:" \o o.h5s[i].name) = k].tok]
PNext(s, e) == [PPost(s, e) EXCEPT !.toks = PTok(e.obs)]
=============================================================================
