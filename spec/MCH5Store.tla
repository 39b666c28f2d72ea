------------------------------ MODULE MCH5Store ------------------------------
(* Design of array file access: a model keeps at most one file open, with   *)
(* the mode it was opened in, and reuses the open file when it can.  The    *)
(* files on disk must always be what the plain sequence of requests means.  *)
EXTENDS H5Store
CONSTANTS MaxOps
VALUES == {<<0, 4>>}
VARIABLES disk, open, mode, want, read, n
vars == <<disk, open, mode, want, read, n>>
FILES == 1..2
PATHS == {<<1, "a">>, <<1, "b">>, <<2, "a">>}
OPTS == {[t |-> "float64", dt |-> "", chunks |-> "", comp |-> ""], [t |-> "int64", dt |-> "float32", chunks |-> "slice", comp |-> "none"],
         [t |-> "bool", dt |-> "pack", chunks |-> "", comp |-> "gzip"]}
Item(p, o, v) == [p |-> p, shape |-> <<2>>, t |-> o.t, dt |-> o.dt, v |-> v, chunks |-> o.chunks, comp |-> o.comp]
Gone == <<"gone">>     \* no such file yet
Init == disk = [f \in FILES |-> [there |-> FALSE, d |-> <<>>]] /\ open = 0 /\ mode = "" /\ want = [NoStore EXCEPT !.files = [f \in FILES |-> <<>>]] /\ read = TRUE /\ n = 0

\* what access does to the disk, the open file and its mode
Access(f, m0) ==
    LET o1 == IF mode # "" /\ mode # m0 THEN 0 ELSE open
        md1 == IF o1 = 0 THEN "" ELSE mode
        m == IF m0 = "a" /\ ~disk[f].there THEN "w" ELSE m0
    IN IF o1 = f THEN [disk |-> disk, open |-> o1, mode |-> md1]
       ELSE [disk |-> IF m = "w" THEN [disk EXCEPT ![f] = [there |-> TRUE, d |-> <<>>]] ELSE disk, open |-> f, mode |-> m]
Release == open' = 0 /\ mode' = "" /\ UNCHANGED <<disk, want, read>>
Write(f, m, p, o, v, rel) ==
    LET e == [f |-> f, mode |-> m, items |-> <<Item(p, o, v)>>, defc |-> "", defz |-> "", int32 |-> TRUE]
        a == Access(f, m)
    IN /\ (m = "w" => open = 0)
       /\ disk' = [a.disk EXCEPT ![f].d = PutAll(@, e.items, e).F]
       /\ open' = IF rel THEN 0 ELSE a.open
       /\ mode' = IF rel THEN "" ELSE a.mode
       /\ want' = [want EXCEPT !.files[f] = WriteResult(want, e).F]
       /\ UNCHANGED read
Overwrite(f, p, v) ==
    LET a == Access(f, "a")
        e == [op |-> "overwrite", f |-> f, p |-> p, t |-> "int32", v |-> v]
    IN /\ p \in DOMAIN want.files[f] /\ Len(want.files[f][p].v) = Len(v)
       /\ want' = HPost(want, e)
       /\ disk' = [a.disk EXCEPT ![f].d = HPost([NoStore EXCEPT !.files = [g \in FILES |-> a.disk[g].d]], e).files[f]]
       /\ open' = a.open /\ mode' = a.mode /\ UNCHANGED read
Read(f, p) ==
    LET a == Access(f, "r")
    IN /\ disk[f].there
       /\ disk' = a.disk /\ open' = a.open /\ mode' = a.mode /\ UNCHANGED want
       /\ read' = ((p \in DOMAIN a.disk[f].d) = (p \in DOMAIN want.files[f]) /\ (p \in DOMAIN want.files[f] => a.disk[f].d[p] = want.files[f][p]))
Copy(src, dst, m, inc) ==
    LET e == [src |-> src, dst |-> dst, mode |-> m, inc |-> inc, exc |-> <<-1>>]
        d == [NoStore EXCEPT !.files = [g \in FILES |-> disk[g].d]]
    IN /\ open = 0 /\ disk[src].there /\ src # dst
       /\ disk' = [disk EXCEPT ![dst] = [there |-> TRUE, d |-> CopyWhole(d, e).F]]
       /\ want' = [want EXCEPT !.files[dst] = CopyWhole(want, e).F]
       /\ UNCHANGED <<open, mode, read>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ Release
           \/ \E f \in FILES, m \in {"w", "a"}, p \in PATHS, o \in OPTS, v \in VALUES, rel \in BOOLEAN : Write(f, m, p, o, v, rel)
           \/ \E f \in FILES, p \in PATHS, v \in VALUES : Overwrite(f, p, v)
           \/ \E f \in FILES, p \in PATHS : Read(f, p)
           \/ \E src, dst \in FILES, m \in {"w", "a"}, inc \in {<<-1>>, <<1>>} : Copy(src, dst, m, inc)
Spec == Init /\ [][Next]_vars
DiskAsAsked == \A f \in FILES : disk[f].d = want.files[f]
ReadsRight == read
OneOpen == (open = 0) = (mode = "")
\* a bit map survives packing whatever its length, and what is put in a selection is got back, nothing else changing
PackLaw == \A len \in {1, 5, 8, 9} : \A v \in {[i \in 1..(2 * len) |-> (i * i + n) % 2], [i \in 1..(2 * len) |-> (i \div 3 + n) % 2]} :
              UnpackV(PackShape(<<2, len>>), PackV(<<2, len>>, v), len) = v
SelLaw == LET sh == <<2, 3, 2>>
              q == [i \in 1..12 |-> i]
          IN \A s \in {<<>>, <<<<1>>>>, <<<<0, 2, 1>>, <<0, 3, 2>>>>, <<<<1>>, <<2>>, <<0>>>>, <<<<0, 2, 1>>, <<1>>, <<1, 2, 1>>>>} :
               LET m == SelCount(sh, s)
                   new == [i \in 1..m |-> 100 + i]
                   r == PutV(sh, s, q, new)
               IN SelV(sh, s, r) = new /\ Cardinality({i \in 1..12 : r[i] # q[i]}) = m /\ Prod(SelShape(sh, s)) = m
=============================================================================
