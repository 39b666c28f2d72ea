-------------------------------- MODULE MCGcs --------------------------------
(* All short histories of connection sets of a grid of two layers and two by *)
(* one columns, with a few masks and selections.                             *)
EXTENDS Gcs
CONSTANTS MaxSteps
VARIABLES s, n
X == <<2, 1, 2>>
Ok0 == [k |-> "ok"]
Masks == {<<>>, <<<<0, 0, 0>>>>, <<<<0, 0, 1>>, <<2, 0, 0>>, <<2, 2, 0>>>>, <<<<0, 1, 0>>, <<2, 2, 1>>>>}
Sets == {{}, {0}, {0, 1}, {0, 3}, {1, 2, 3}, {0, 1, 2, 3}}
Init == n = 0 /\ s = GcsPost(GcsInit, [op |-> "grid", x |-> X, half |-> [i \in 1..24 |-> 1 + Mod(i, 3)]])
Ns == DOMAIN s.g
New == Cardinality(Ns) + 1
Ops == {[op |-> "masks", n |-> New, name |-> f, l |-> l, res |-> Ok0] : f \in 1..2, l \in Masks}
       \cup {[op |-> "skin", n |-> New, name |-> 3, cells |-> Ordered(X, c), res |-> Ok0] : c \in Sets}
       \cup {[op |-> "append", n |-> a, from |-> b, res |-> Ok0] : a \in Ns, b \in Ns}
       \cup {[op |-> "layers", n |-> New, from |-> a, inh |-> TRUE, pare |-> p, lo |-> k, hi |-> k, res |-> Ok0] : a \in Ns, p \in BOOLEAN, k \in 0..1}
       \cup {[op |-> "mask", n |-> New, from |-> a, inh |-> TRUE, pare |-> p, cells |-> Ordered(X, c), both |-> p, res |-> Ok0] : a \in Ns, p \in BOOLEAN, c \in Sets}
       \cup {[op |-> "single", n |-> New, from |-> a, inh |-> TRUE, name |-> 0, i |-> i, pare |-> FALSE, res |-> Ok0] : a \in Ns, i \in 0..1}
       \cup {[op |-> "prop", n |-> a, p |-> [t |-> n, k |-> "mult", d |-> FALSE, v |-> [i \in DOMAIN s.g[a].p |-> Mod(3 * i, 5)]], res |-> Ok0] : a \in {b \in Ns : s.g[b].pr = <<>>}}
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Ops : s' = GcsPost(s, e)
Spec == Init /\ [][Next]_<<s, n>>

\* every pair joins a face with the opposite one of the neighbouring cell, and belongs to a feature
Sound == \A a \in Ns : LET o == s.g[a] IN \A i \in DOMAIN o.p : LET r == o.p[i] IN
    /\ AxisOf(r[3]) = AxisOf(r[4]) /\ PolOf(r[3]) # PolOf(r[4]) /\ ~ Outer(X, r[1], r[3]) /\ Beyond(X, r[1], r[3]) = r[2] /\ Beyond(X, r[2], r[4]) = r[1]
    /\ Key(X, r[1], r[3]) = Key(X, r[2], r[4])
    /\ r[5] \in 0..Len(o.f) - 1
Aligned == \A a \in Ns : \A i \in DOMAIN s.g[a].pr : s.g[a].pr[i].t = n - 1 => Len(s.g[a].pr[i].v) = Len(s.g[a].p)
\* the features part the pairs
Parted == \A a \in Ns : LET o == s.g[a]  q == Flat([i \in DOMAIN o.f |-> OfFeature(o, i - 1)]) IN SameBag(q, [i \in DOMAIN o.p |-> i])
\* a mask with one or both cells, and its complement, share out the pairs
Shared == \A a \in Ns, c \in Sets : LET o == s.g[a] IN
    Len(Kept(o.p, LAMBDA z : z \in c, TRUE)) + Len(Kept(o.p, LAMBDA z : z \notin c, FALSE)) = Len(o.p)
\* removing features not in use keeps the names
Paring == \A a \in Ns : LET o == s.g[a]  q == Pare(o) IN Named(q) = Named(o) /\ Pare(q) = q /\ Rng(q.f) = {o.f[o.p[i][5] + 1] : i \in DOMAIN o.p}
\* the skin of a set of cells is that of the others
Skins == \A c \in Sets : Skin(X, c) = Skin(X, (0..3) \ c)
\* a set inherits itself without change
Self == \A a \in Ns : LET o == s.g[a] IN (Cardinality({SubSeq(o.p[i], 1, 4) : i \in DOMAIN o.p}) = Len(o.p) /\ Pare(o).f = o.f /\ Cardinality(Rng(o.f)) = Len(o.f)) =>
                         (InheritOk(o, o, [p |-> o.p, f |-> o.f]) \/ \E i, j \in DOMAIN o.p : i # j /\ Inheritable(o, o.p[i]) # {o.f[o.p[i][5] + 1]})
\* what is written for a simulator on either side reads back as the same faces
SimBack == \A a \in Ns, d \in BOOLEAN : LET q == ReadBack(s, [from |-> a, t |-> -1, both |-> FALSE, minus |-> d])  o == s.g[a] IN
    Len(q) = Len(o.p) /\ \A i \in DOMAIN q : {<<q[i][1], q[i][3]>>, <<q[i][2], q[i][4]>>} = {<<o.p[i][1], o.p[i][3]>>, <<o.p[i][2], o.p[i][4]>>}
\* joining the connections of layers of no thickness
Th == [p \in 1..4 |-> <<1, 0, 1, 0, 0, 2>>]
PinchTest == PinchPairs([x |-> <<6, 1, 1>>, th |-> Th, gap |-> Th, gaps |-> <<0, 0, 0, 0, 0>>, dead |-> <<>>, skip |-> TRUE]) = {<<0, 2>>, <<2, 5>>}
Inv == Sound /\ Aligned /\ Parted /\ Shared /\ Paring /\ Skins /\ Self /\ SimBack /\ PinchTest
=============================================================================
