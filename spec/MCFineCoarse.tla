------------------------------ MODULE MCFineCoarse ------------------------------
(* All short histories of one mapping, small extents: every fine cell is in    *)
(* one coarse cell, the boxes of the coarse cells tile the fine cells, and the *)
(* first columns and pillars go with the mapping.                              *)
EXTENDS FineCoarse
CONSTANTS MaxSteps
VARIABLES s, n
X == {<<<<3, 2, 4>>, <<2, 1, 2>>>>, <<<<2, 4, 3>>, <<1, 2, 3>>>>, <<<<1, 3, 2>>, <<1, 2, 1>>>>}
Ok0 == [k |-> "ok", what |-> ""]
V == {<<1, 2>>, <<2, 1>>, <<2>>, <<1, 3>>, <<2, 2>>, <<1, 1, 1>>, <<1>>, <<3>>, <<0, 3>>}
L == {<<<<1>>, <<1, 3>>>>, <<<<2, 1>>, <<1, 1>>>>, <<<<1, 2>>>>, <<<<1, 1>>, <<2>>>>}
Ops == {[op |-> "const", n |-> 1, axes |-> a, res |-> Ok0] : a \in {<<0>>, <<1, 2>>, <<0, 1, 2>>}}
   \cup {[op |-> "vec", n |-> 1, axis |-> a, v |-> v, res |-> Ok0] : a \in 0..2, v \in V}
   \cup {[op |-> "props", n |-> 1, axis |-> a, l |-> l, res |-> Ok0] : a \in 0..2, l \in L}
   \cup {[op |-> "equal", n |-> 1, axis |-> a, res |-> Ok0] : a \in {0, 3}}
Init == n = 0 /\ \E p \in X : s = FcPost(FcInit, [op |-> "new", n |-> 1, f |-> p[1], c |-> p[2], wf |-> <<>>, wc |-> <<<<1, 0, 2>>, [a \in A3 |-> <<1, 0, 2>>[a] + p[2][a] - 1]>>])
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Ops : s' = FcPost(s, e)
Spec == Init /\ [][Next]_<<s, n>>
m == s.m[1]
Sums == \A a \in A3 : m.r[a] # <<>> => Len(m.r[a]) = m.c[a] /\ Sum(m.r[a]) = m.f[a] /\ Len(Map(m.r[a])) = m.f[a]
Coarse == {<<k, j, i>> : k \in 0..m.c[1] - 1, j \in 0..m.c[2] - 1, i \in 0..m.c[3] - 1}
InBox(b, c) == \A a \in A3 : b.lo[a] <= c[a] /\ c[a] <= b.hi[a]
Tiles == Known(m) => \A k \in 0..m.f[1] - 1, j \in 0..m.f[2] - 1, i \in 0..m.f[3] - 1 :
    {c \in Coarse : InBox(FBox(m, c), <<k, j, i>>)} = {<<Map(m.r[1])[k + 1], Map(m.r[2])[j + 1], Map(m.r[3])[i + 1]>>}
Firsts == Known(m) => /\ \A q \in 0..m.c[2] * m.c[3] - 1 : LET f == Column(m, q)  j == f \div m.f[3]  i == f - j * m.f[3] IN
                              Map(m.r[2])[j + 1] * m.c[3] + Map(m.r[3])[i + 1] = q
                      /\ Pillar(m, (m.c[2] + 1) * (m.c[3] + 1) - 1) = (m.f[2] + 1) * (m.f[3] + 1) - 1 /\ Pillar(m, 0) = 0
Kept == \A b \in BOOLEAN : Known(m) => LET x == Stored(m, b) IN x.r = m.r /\ x.win.side # "none"
Weights == \A a \in A3 : m.w[a] # <<>> => ~ AllSame(m.w[a])
\* the ratios of a tartan refinement exist, and are those of the fovea in it
TArg == {[c |-> <<4, 3, 1>>, lo |-> <<1, 2, 0>>, hi |-> <<1, 2, 0>>, fr |-> <<f, f, f>>, mode |-> mo, rates |-> <<r, r, r>>, wf |-> <<>>, wc |-> <<>>] : f \in {1, 3, 6}, mo \in {"linear", "exponential"}, r \in {0, 1, 2, 6}}
ASSUME \A e \in TArg : \A a \in A3 : \A d \in 0..4 : LET S == {v \in 1..6 : Tartan(v, e.fr[a], d, e.mode, e.rates[a])} IN S # {} /\ Cardinality(S) <= 2 /\ (d = 0 => S = {e.fr[a]})
Inv == Sums /\ Tiles /\ Firsts /\ Kept /\ Weights
=============================================================================
