-------------------------------- MODULE Gcs --------------------------------
(* Grid connection sets: pairs of cell faces of a grid, each pair belonging *)
(* to a feature.  A cell is its number in the flattened grid, a face is     *)
(* 0..5, a pair is <<cell, cell, face, face, feature>>.  A feature is known *)
(* by a number standing for its name.  Property values are in eighths.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Mod(x, y) == x - y * (x \div y)
AxisOf(f) == <<0, 0, 1, 2, 1, 2>>[f + 1]
PolOf(f) == <<0, 1, 0, 1, 1, 0>>[f + 1]
FaceOf(a, p) == <<<<0, 1>>, <<2, 4>>, <<5, 3>>>>[a + 1][p + 1]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Rng(q) == {q[i] : i \in DOMAIN q}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) : Count(a, x) = Count(b, x)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* ---- cells; x is <<nk, nj, ni>>
NCells(x) == x[1] * x[2] * x[3]
Cells(x) == [c \in 1..NCells(x) |-> c - 1]
Kji(x, c) == <<c \div (x[2] * x[3]), Mod(c \div x[3], x[2]), Mod(c, x[3])>>
Num(x, k) == (k[1] * x[2] + k[2]) * x[3] + k[3]
Stride(x, a) == <<x[2] * x[3], x[3], 1>>[a + 1]
At(x, c, a) == Kji(x, c)[a + 1]
Beyond(x, c, f) == IF PolOf(f) = 1 THEN c + Stride(x, AxisOf(f)) ELSE c - Stride(x, AxisOf(f))
Outer(x, c, f) == IF PolOf(f) = 1 THEN At(x, c, AxisOf(f)) = x[AxisOf(f) + 1] - 1 ELSE At(x, c, AxisOf(f)) = 0
Simple(x, a, c, flip) == LET d == c + Stride(x, a) IN IF flip THEN <<d, c, FaceOf(a, 0), FaceOf(a, 1), 0>> ELSE <<c, d, FaceOf(a, 1), FaceOf(a, 0), 0>>
Ordered(x, S) == SelectSeq(Cells(x), LAMBDA c : c \in S)
FromSet(x, a, S) == LET q == Ordered(x, S) IN [i \in DOMAIN q |-> Simple(x, a, q[i], FALSE)]
FromSets(x, S0, S1, S2) == FromSet(x, 0, S0) \o FromSet(x, 1, S1) \o FromSet(x, 2, S2)
InnerCells(x, a) == {c \in 0..NCells(x) - 1 : At(x, c, a) < x[a + 1] - 1}

FromMasks(x, l) == [i \in DOMAIN l |-> Simple(x, l[i][1], l[i][2], l[i][3] = 1)]
\* strands of faces: repeated along the axis e.axis
Strand(x, fa, axis, l) == LET r == CHOOSE b \in 0..2 : b # axis /\ \A d \in 0..2 : d # axis => b <= d
                              q == CHOOSE b \in 0..2 : b # axis /\ b # r IN
                          {c \in InnerCells(x, fa) : <<At(x, c, r), At(x, c, q)>> \in Rng(l)}
FromKelp(x, e) == LET fa == IF e.axis = 0 THEN 1 ELSE 0  fb == IF e.axis = 2 THEN 1 ELSE 2
                      A == Strand(x, fa, e.axis, e.a)  B == Strand(x, fb, e.axis, e.b) IN
                  FromSet(x, fa, A) \o FromSet(x, fb, B)
Skin(x, M) == LET S(a) == {c \in InnerCells(x, a) : (c \in M) # ((c + Stride(x, a)) \in M)} IN FromSets(x, S(0), S(1), S(2))
FromFaces(x, e) == LET one(a, l) == IF e.dups THEN [i \in DOMAIN l |-> Simple(x, a, l[i], FALSE)] ELSE FromSet(x, a, Rng(l)) IN
                   one(0, e.l[1]) \o one(1, e.l[2]) \o one(2, e.l[3])

\* ---- tables of faces: rows [name, axis, polarity, lo, hi, mult] with lo, hi in kji order, zero based
RowOut(x, r) == IF r.pol = 1 THEN r.hi[r.axis + 1] >= x[r.axis + 1] - 1 ELSE r.lo[r.axis + 1] <= 0
RowCells(x, r) == SelectSeq(Cells(x), LAMBDA c : \A a \in 1..3 : r.lo[a] <= Kji(x, c)[a] /\ Kji(x, c)[a] <= r.hi[a])
Times(e, id) == IF \E i \in DOMAIN e.dict : e.dict[i][1] = id THEN e.dict[CHOOSE i \in DOMAIN e.dict : e.dict[i][1] = id][2] ELSE 2   \* in halves
RECURSIVE Firsts(_, _)
Firsts(q, seen) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in seen THEN Firsts(Tail(q), seen) ELSE <<Head(q)>> \o Firsts(Tail(q), seen \cup {Head(q)})
DfRows(s, e) == SelectSeq(e.rows, LAMBDA r : ~ RowOut(s.x, r))
DfNames(s, e) == LET q == DfRows(s, e) IN SelectSeq(Firsts([i \in DOMAIN q |-> q[i].name], {}), LAMBDA n : e.create \/ n \in s.known)
DfOne(s, e, i) == LET n == DfNames(s, e)[i]  q == SelectSeq(DfRows(s, e), LAMBDA r : r.name = n) IN
                  Flat([j \in DOMAIN q |-> LET r == q[j]  cs == RowCells(s.x, r)  f == FaceOf(r.axis, r.pol) IN
                        [h \in DOMAIN cs |-> <<<<cs[h], Beyond(s.x, cs[h], f), f, FaceOf(r.axis, 1 - r.pol), i - 1>>, (r.mult * Times(e, n)) \div 2>>]])
Df(s, e) == Flat([i \in DOMAIN DfNames(s, e) |-> DfOne(s, e, i)])   \* pairs with their multipliers
\* the multiplier of a fault whose interpretation is made for it, if it has only one
DfMeta(s, e) == [n \in {k \in Rng(DfNames(s, e)) \ s.known : LET q == DfOne(s, e, CHOOSE i \in DOMAIN DfNames(s, e) : DfNames(s, e)[i] = k) IN
                                                             q # <<>> /\ \A h \in DOMAIN q : q[h][2] = q[1][2]}
                 |-> DfOne(s, e, CHOOSE i \in DOMAIN DfNames(s, e) : DfNames(s, e)[i] = n)[1][2]]

\* ---- selections
Renumber(p, old, new) == [i \in DOMAIN p |-> [p[i] EXCEPT ![5] = (CHOOSE j \in DOMAIN new : new[j] = old[p[i][5] + 1]) - 1]]
InLayers(x, c, lo, hi) == (lo < 0 \/ At(x, c, 0) >= lo) /\ (hi < 0 \/ At(x, c, 0) <= hi)
Kept(p, In(_), both) == SelectSeq([i \in DOMAIN p |-> i], LAMBDA i : IF both THEN In(p[i][1]) /\ In(p[i][2]) ELSE In(p[i][1]) \/ In(p[i][2]))
Pick(q, l) == [i \in DOMAIN l |-> q[l[i]]]
\* unused features removed, the rest in the same order
Pare(o) == LET used == {o.p[i][5] + 1 : i \in DOMAIN o.p}  keep == SelectSeq([i \in DOMAIN o.f |-> i], LAMBDA i : i \in used) IN
           [o EXCEPT !.f = Pick(o.f, keep), !.p = [i \in DOMAIN o.p |-> [o.p[i] EXCEPT ![5] = (CHOOSE j \in DOMAIN keep : keep[j] = o.p[i][5] + 1) - 1]]]
Sel(o, l) == [p |-> Pick(o.p, l), f |-> o.f, pr |-> [i \in DOMAIN o.pr |-> [o.pr[i] EXCEPT !.v = Pick(o.pr[i].v, l)]]]
FeatureAt(o, e) == IF e.name = 0 THEN e.i ELSE IF \E i \in DOMAIN o.f : o.f[i] = e.name THEN MinOf({i \in DOMAIN o.f : o.f[i] = e.name}) - 1 ELSE -1
OfFeature(o, i) == SelectSeq([j \in DOMAIN o.p |-> j], LAMBDA j : o.p[j][5] = i)
Single(o, i) == LET q == Sel(o, OfFeature(o, i)) IN [q EXCEPT !.f = <<o.f[i + 1]>>, !.p = [j \in DOMAIN q.p |-> [q.p[j] EXCEPT ![5] = 0]]]
SelIndices(s, e) == LET o == s.g[e.from] IN
    CASE e.op = "layers" -> Kept(o.p, LAMBDA c : InLayers(s.x, c, e.lo, e.hi), TRUE)
      [] e.op = "mask" -> Kept(o.p, LAMBDA c : c \in Rng(e.cells), e.both)
      [] OTHER -> OfFeature(o, FeatureAt(o, e))
Whole(s, e) == e.op = "layers" /\ e.lo <= 0 /\ (e.hi < 0 \/ e.hi >= s.x[1] - 1)
Selected(s, e) == LET o == s.g[e.from] IN
    IF e.op = "single" THEN Single(o, FeatureAt(o, e))
    ELSE LET q == Sel(o, SelIndices(s, e)) IN IF e.pare /\ ~ Whole(s, e) THEN Pare(q) ELSE q
NoSel(s, e) == IF e.op = "single" THEN FeatureAt(s.g[e.from], e) < 0 \/ FeatureAt(s.g[e.from], e) >= Len(s.g[e.from].f)
               ELSE SelIndices(s, e) = <<>> /\ ~ Whole(s, e)

Joined(a, b) == IF a.p = <<>> THEN [p |-> b.p, f |-> b.f, pr |-> <<>>] ELSE [p |-> a.p \o [i \in DOMAIN b.p |-> [b.p[i] EXCEPT ![5] = b.p[i][5] + Len(a.f)]], f |-> a.f \o b.f, pr |-> <<>>]
RECURSIVE JoinAll(_, _)
JoinAll(s, l) == IF Len(l) = 1 THEN s.g[l[1]] ELSE Joined(JoinAll(s, SubSeq(l, 1, Len(l) - 1)), s.g[l[Len(l)]])
PropOf(o, t) == o.pr[CHOOSE i \in DOMAIN o.pr : o.pr[i].t = t]
HasKind(o, k) == \E i \in DOMAIN o.pr : o.pr[i].k = k
OfKind(o, k) == o.pr[CHOOSE i \in DOMAIN o.pr : o.pr[i].k = k]

\* ---- inheriting features: a pair takes the feature of a pair of the other set that has one of its faces
Touching(b, c, f) == {b.f[b.p[j][5] + 1] : j \in {h \in DOMAIN b.p : \E d \in 1..2 : b.p[h][d] = c /\ b.p[h][d + 2] = f}}
Inheritable(b, r) == Touching(b, r[1], r[3]) \cup Touching(b, r[2], r[4])
InheritOk(a, b, obs) ==
    /\ Len(obs.p) = Len(a.p)
    /\ \A i \in DOMAIN a.p : /\ SubSeq(obs.p[i], 1, 4) = SubSeq(a.p[i], 1, 4)
                             /\ obs.p[i][5] \in 0..Len(obs.f) - 1
                             /\ LET c == Inheritable(b, a.p[i])  n == obs.f[obs.p[i][5] + 1] IN IF c = {} THEN n = a.f[a.p[i][5] + 1] ELSE n \in c
    /\ \A i \in DOMAIN obs.f : (obs.f[i] \in Rng(a.f) \ Rng(b.f)) => \E j \in DOMAIN obs.p : obs.p[j][5] = i - 1
    /\ Rng(obs.f) \subseteq Rng(a.f) \cup Rng(b.f)
    /\ Rng(b.f) \subseteq Rng(obs.f) \cup Rng(a.f)

\* ---- faces of the grid as keys <<axis, number in the flattened array of faces of that axis>>
FaceExt(x, a) == [x EXCEPT ![a + 1] = @ + 1]
Key(x, c, f) == LET a == AxisOf(f)  k == Kji(x, c) IN <<a, Num(FaceExt(x, a), [k EXCEPT ![a + 1] = @ + PolOf(f)])>>
FaceCount(x, a) == NCells(FaceExt(x, a))
\* values that pairs of the set give to a face; act and baf are sequences of 0 or 8, or empty
FaceVals(x, o, v, key, feat, act, baf, lazy) ==
    {IF baf # <<>> /\ baf[i] # 0 THEN 0 ELSE v[i] : i \in {j \in DOMAIN o.p : /\ (feat < 0 \/ o.p[j][5] = feat)
                                        /\ (act = <<>> \/ act[j] # 0)
                                        /\ \E d \in (IF lazy THEN {1} ELSE {1, 2}) : Key(x, o.p[j][d], o.p[j][d + 2]) = key}}
VecOf(o, k, wanted) == IF wanted /\ HasKind(o, k) THEN OfKind(o, k).v ELSE <<>>
FaceArrayOk(s, e) ==
    LET o == s.g[e.n]  p == PropOf(o, e.t)  act == VecOf(o, "active", e.active)  baf == VecOf(o, "baffle", e.baffle) IN
    \A a \in 0..2 : /\ Len(e.obs[a + 1]) = FaceCount(s.x, a)
                    /\ \A h \in DOMAIN e.obs[a + 1] : LET V == FaceVals(s.x, o, p.v, <<a, h - 1>>, e.feat, act, baf, e.lazy) IN
                                                      IF V = {} THEN e.obs[a + 1][h] = e.default ELSE e.obs[a + 1][h] \in V
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))
TrVals(s, e, key) == [i \in DOMAIN e.l |-> LET o == s.g[e.l[i][1]] IN
                      FaceVals(s.x, o, PropOf(o, e.l[i][2]).v, key, -1, VecOf(o, "active", e.active), VecOf(o, "baffle", e.baffles),
                               IF e.sided = 2 THEN e.mode = "multiply" ELSE e.sided = 0)]
One(S) == CHOOSE x \in S : TRUE
TrKeys(s) == UNION {{<<a, h>> : h \in 0..FaceCount(s.x, a) - 1} : a \in 0..2}
TrClash(s, e) == \E key \in TrKeys(s) : LET w == TrVals(s, e, key) IN Cardinality({i \in DOMAIN w : w[i] # {}}) > 1
TrOk(s, e) ==
    \A a \in 0..2 : /\ Len(e.obs[a + 1]) = FaceCount(s.x, a)
                    /\ \A h \in DOMAIN e.obs[a + 1] :
                        LET w == SelectSeq(TrVals(s, e, <<a, h - 1>>), LAMBDA S : S # {})
                            q == [i \in DOMAIN w |-> One(w[i])]  r == e.obs[a + 1][h] IN
                        IF \E i \in DOMAIN w : Cardinality(w[i]) > 1 THEN TRUE
                        ELSE IF q = <<>> THEN r = e.fill
                        ELSE IF e.mode = "minimum" THEN r = 64 * MinOf(Rng(q))
                        ELSE IF e.mode = "multiply" THEN r = Product(q) * <<64, 8, 1>>[Len(q)]
                        ELSE r = 64 * MaxOf(Rng(q))    \* with exception there is only one

\* ---- maps from the K faces
ColVals(s, o, v, col) == LET l == SelectSeq([i \in DOMAIN o.p |-> i], LAMBDA i : AxisOf(o.p[i][3]) = 0 /\ AxisOf(o.p[i][4]) = 0 /\ Mod(o.p[i][1], s.x[2] * s.x[3]) = col) IN Pick(v, l)
ColClash(s, e) == LET o == s.g[e.n] IN \E col \in 0..s.x[2] * s.x[3] - 1 : Len(ColVals(s, o, PropOf(o, e.t).v, col)) > 1
ColsOk(s, e) == LET o == s.g[e.n]  p == PropOf(o, e.t)  mode == IF e.mode # "default" THEN e.mode ELSE IF p.d THEN "any" ELSE "mean" IN
    Len(e.obs) = s.x[2] * s.x[3] /\ \A h \in DOMAIN e.obs :
        LET q == ColVals(s, o, p.v, h - 1)  r == e.obs[h] IN
        IF q = <<>> THEN r = e.null
        ELSE IF mode = "mean" THEN r * Len(q) = 120 * SumSeq(q)
        ELSE IF mode = "min" THEN r = 120 * MinOf(Rng(q)) ELSE IF mode = "max" THEN r = 120 * MaxOf(Rng(q)) ELSE r \in {120 * z : z \in Rng(q)}

\* ---- edges of columns: <<j, i, axis - 1, polarity>>
EdgesOf(x, o, feat, lo, hi) ==
    UNION {{<<Kji(x, o.p[i][d])[2], Kji(x, o.p[i][d])[3], AxisOf(o.p[i][d + 2]) - 1, PolOf(o.p[i][d + 2])>> : d \in {z \in 1..2 : AxisOf(o.p[i][z + 2]) # 0}} :
           i \in {j \in DOMAIN o.p : o.p[j][5] = feat /\ InLayers(x, o.p[j][1], lo, hi) /\ InLayers(x, o.p[j][2], lo, hi)}}
EdgeVals(x, o, v, feat, k, edge) ==
    {v[i] : i \in {j \in DOMAIN o.p : o.p[j][5] = feat /\ At(x, o.p[j][1], 0) = k /\ At(x, o.p[j][2], 0) = k /\
                   \E d \in 1..2 : AxisOf(o.p[j][d + 2]) # 0 /\ edge = <<Kji(x, o.p[j][d])[2], Kji(x, o.p[j][d])[3], AxisOf(o.p[j][d + 2]) - 1, PolOf(o.p[j][d + 2])>>}}
NAN == -1000000
CombinedOk(s, e) ==
    LET o == s.g[e.n]
        lo == e.lo
        fl == e.feats
        E(j) == EdgesOf(s.x, o, fl[j], e.lo, e.hi)
        All == UNION {E(j) : j \in DOMAIN fl}
        ref == IF e.ref < 0 THEN e.lo ELSE e.ref
        id(j) == o.f[fl[j] + 1]
        mult == HasKind(o, "mult")
        None(j) == id(j) \notin DOMAIN s.meta /\ (~ mult \/ UNION {EdgeVals(s.x, o, OfKind(o, "mult").v, fl[j], ref, z) : z \in EdgesOf(s.x, o, fl[j], ref, ref)} = {})
    IN /\ {<<z[1], z[2], z[3], z[4]>> : z \in Rng(e.obs.on)} = All
       /\ e.obs.rest
       /\ \A z \in Rng(e.obs.on) : LET edge == <<z[1], z[2], z[3], z[4]>>  S == {j \in DOMAIN fl : edge \in E(j)} IN
              /\ z[5] = fl[MaxOf(S)]
              /\ (e.obs.none \/ Cardinality(S) > 1 \/
                  LET j == One(S) IN
                  IF id(j) \in DOMAIN s.meta THEN z[6] = s.meta[id(j)]
                  ELSE IF None(j) THEN z[6] = NAN
                  ELSE LET V == EdgeVals(s.x, o, OfKind(o, "mult").v, fl[j], ref, edge) IN IF V = {} THEN z[6] = NAN ELSE z[6] \in V)
       /\ (e.obs.none => \A j \in DOMAIN fl : id(j) \notin DOMAIN s.meta)

\* ---- simulator files: rows of one cell <<name, axis, polarity, cell, mult>>
SimRows(s, e) == LET o == s.g[e.from]  v == IF e.t < 0 THEN [i \in DOMAIN o.p |-> 8] ELSE PropOf(o, e.t).v
                     side(d) == [i \in DOMAIN o.p |-> <<o.f[o.p[i][5] + 1], AxisOf(o.p[i][d + 2]), PolOf(o.p[i][d + 2]), o.p[i][d], v[i]>>] IN
                 IF e.both THEN side(1) \o side(2) ELSE IF e.minus THEN side(2) ELSE side(1)
\* and the set made from such a file: pairs of neighbours with the name of their feature and the multiplier
ReadBack(s, e) == LET q == SelectSeq(SimRows(s, e), LAMBDA r : ~ Outer(s.x, r[4], FaceOf(r[2], r[3]))) IN
                  [i \in DOMAIN q |-> LET f == FaceOf(q[i][2], q[i][3]) IN <<q[i][4], Beyond(s.x, q[i][4], f), f, FaceOf(q[i][2], 1 - q[i][3]), q[i][1], q[i][5]>>]
Named(o) == [i \in DOMAIN o.p |-> SubSeq(o.p[i], 1, 4) \o <<o.f[o.p[i][5] + 1]>>]

\* ---- transmissibilities in thousandths; half[cell * 6 + axis * 2 + polarity + 1] are half cell transmissibilities, fa in quarters
Half(s, c, f) == s.half[c * 6 + AxisOf(f) * 2 + PolOf(f) + 1]
Abs(z) == IF z < 0 THEN -z ELSE z
TrArrayOk(s, e) == LET o == s.g[e.n] IN Len(e.obs) = Len(o.p) /\ \A i \in DOMAIN o.p :
    LET a == Half(s, o.p[i][1], o.p[i][3]) * (IF e.fa = <<>> THEN 4 ELSE e.fa[i][1])
        b == Half(s, o.p[i][2], o.p[i][4]) * (IF e.fa = <<>> THEN 4 ELSE e.fa[i][2])
        id == o.f[o.p[i][5] + 1]
        m == IF ~ e.mult THEN 8 ELSE IF HasKind(o, "mult") THEN OfKind(o, "mult").v[i] ELSE IF id \in DOMAIN s.meta THEN s.meta[id] ELSE NAN IN
    IF a = 0 \/ b = 0 THEN e.obs[i] = 0
    ELSE IF m = NAN THEN e.obs[i] = NAN
    ELSE Abs(e.obs[i] * 32 * (a + b) - 1000 * m * a * b) <= 32 * (a + b)

\* ---- surfaces: two triangles for each pair, covering the face of its first cell; points are <<i, j, k>>
Corners(x, c, f) == LET k == Kji(x, c)  a == AxisOf(f) IN
    {<<q[3], q[2], q[1]>> : q \in {[z \in 1..3 |-> k[z] + d[z]] : d \in {dd \in [1..3 -> {0, 1}] : dd[a + 1] = PolOf(f)}}}
Differ(a, b) == Cardinality({i \in 1..3 : a[i] # b[i]})
SurfaceOk(s, e) == LET o == s.g[e.n]  l == OfFeature(o, e.feat) IN
    Len(e.obs) = 2 * Len(l) /\ \A i \in DOMAIN l :
        LET A == Rng(e.obs[2 * i - 1])  B == Rng(e.obs[2 * i])  D == A \cap B IN
        /\ A \cup B = Corners(s.x, o.p[l[i]][1], o.p[l[i]][3]) /\ Cardinality(A) = 3 /\ Cardinality(B) = 3 /\ Cardinality(D) = 2
        /\ \A a, b \in D : a # b => Differ(a, b) = 2

\* ---- the faces of neighbouring columns
Reworked(x, r) == LET a == Kji(x, r[1])  b == Kji(x, r[2]) IN
    IF a[2] = b[2] /\ a[3] = b[3] + 1 THEN [r EXCEPT ![3] = FaceOf(2, 0), ![4] = FaceOf(2, 1)]
    ELSE IF a[2] = b[2] /\ a[3] = b[3] - 1 THEN [r EXCEPT ![3] = FaceOf(2, 1), ![4] = FaceOf(2, 0)]
    ELSE IF a[3] = b[3] /\ a[2] = b[2] + 1 THEN [r EXCEPT ![3] = FaceOf(1, 0), ![4] = FaceOf(1, 1)]
    ELSE IF a[3] = b[3] /\ a[2] = b[2] - 1 THEN [r EXCEPT ![3] = FaceOf(1, 1), ![4] = FaceOf(1, 0)]
    ELSE r

\* ---- connections across layers of no thickness, or gaps of none.  th[p][k] is the thickness of layer k at pillar p, gap[p][k] of the
\* gap after it; pillars are numbered in rows of ni + 1
Pillars(x, col) == LET j == col \div x[3]  i == Mod(col, x[3]) IN {(j + dj) * (x[3] + 1) + i + di + 1 : dj, di \in {0, 1}}
Pinched(x, e, k, col) == \A p \in Pillars(x, col) : e.th[p][k + 1] = 0
Dead(e, x, k, col) == e.skip /\ (k * x[2] * x[3] + col) \in Rng(e.dead)
GapAfter(e, k) == e.gaps[k + 1] = 1
PinchPairs(e) == LET x == e.x  A == x[2] * x[3] IN
    UNION {{<<a * A + col, b * A + col>> : <<a, b>> \in {z \in (0..x[1] - 1) \X (0..x[1] - 1) :
            /\ z[1] + 1 < z[2]
            /\ ~ Pinched(x, e, z[1], col) /\ ~ Pinched(x, e, z[2], col)
            /\ \A k \in z[1] + 1..z[2] - 1 : Pinched(x, e, k, col)
            /\ ~ Dead(e, x, z[1], col) /\ ~ Dead(e, x, z[2], col)
            /\ \A k \in z[1]..z[2] - 1 : ~ GapAfter(e, k)}} : col \in 0..A - 1}
GapPairs(e) == LET x == e.x  A == x[2] * x[3] IN
    UNION {{<<k * A + col, (k + 1) * A + col>> : k \in {h \in 0..x[1] - 2 : /\ GapAfter(e, h) /\ ~ Dead(e, x, h, col) /\ ~ Dead(e, x, h + 1, col)
                                                                         /\ \A p \in Pillars(x, col) : e.gap[p][h + 1] = 0}} : col \in 0..A - 1}

\* ---- transitions
GcsInit == [pend |-> <<>>, x |-> <<1, 1, 1>>, half |-> <<>>, known |-> {}, meta |-> <<>>, g |-> <<>>]
\* properties that came with a table of faces are written with the set
Pending(s, n) == IF n \in DOMAIN s.pend THEN s.pend[n] ELSE <<>>
SetG(s, n, o) == [s EXCEPT !.g = (n :> o) @@ @]
Made(s, e, p) == [SetG(s, e.n, [p |-> p, f |-> <<e.name>>, pr |-> <<>>]) EXCEPT !.known = @ \cup {e.name}]
Cur(s, e, o) == [p |-> o.p, f |-> o.f, pr |-> <<>>]
AsSet(o, e) == [p |-> e.obs.p, f |-> e.obs.f, pr |-> IF "pr" \in DOMAIN e.obs THEN e.obs.pr ELSE <<>>]
Raised(e) == e.res.k # "ok"
Makers == {"masks", "kelp", "skin", "faces"}
PairsFor(s, e) == CASE e.op = "masks" -> FromMasks(s.x, e.l) [] e.op = "kelp" -> FromKelp(s.x, e) [] e.op = "skin" -> Skin(s.x, Rng(e.cells)) [] OTHER -> FromFaces(s.x, e)
DfObj(s, e) == LET d == Df(s, e) IN [p |-> [i \in DOMAIN d |-> d[i][1]], f |-> DfNames(s, e),
                                     pr |-> IF d = <<>> THEN <<>> ELSE <<[t |-> 0, k |-> "mult", d |-> FALSE, v |-> [i \in DOMAIN d |-> d[i][2]]]>>]
GcsPost(s, e) ==
    CASE e.op = "grid" -> [GcsInit EXCEPT !.x = e.x, !.half = e.half]
      [] e.op \in Makers -> Made(s, e, PairsFor(s, e))
      [] e.op = "empty" -> SetG(s, e.n, [p |-> <<>>, f |-> <<>>, pr |-> <<>>])
      [] e.op = "raw" -> [SetG(s, e.n, [p |-> e.p, f |-> e.f, pr |-> <<>>]) EXCEPT !.known = @ \cup Rng(e.f)]
      [] e.op = "df" -> [SetG(s, e.n, IF e.saved THEN DfObj(s, e) ELSE [DfObj(s, e) EXCEPT !.pr = <<>>]) EXCEPT !.pend = (e.n :> IF e.saved THEN <<>> ELSE DfObj(s, e).pr) @@ @, !.known = @ \cup Rng(DfNames(s, e)), !.meta = DfMeta(s, e) @@ @]
      [] e.op = "append" -> SetG(s, e.n, Joined(s.g[e.n], s.g[e.from]))
      [] e.op \in {"layers", "mask", "single"} -> IF NoSel(s, e) THEN s ELSE SetG(s, e.n, IF e.inh THEN Selected(s, e) ELSE [Selected(s, e) EXCEPT !.pr = <<>>])
      [] e.op = "save" -> [s EXCEPT !.g[e.n].pr = @ \o Pending(s, e.n), !.pend = (e.n :> <<>>) @@ @]
      [] e.op = "prop" -> [s EXCEPT !.g[e.n].pr = Append(@, e.p)]
      [] e.op = "inherit" -> SetG(s, e.n, [p |-> e.obs.p, f |-> e.obs.f, pr |-> <<>>])
      [] e.op = "rework" -> [s EXCEPT !.g[e.n].p = [i \in DOMAIN @ |-> Reworked(s.x, [@[i] EXCEPT ![3] = e.faces[i][1], ![4] = e.faces[i][2]])]]
      [] e.op = "ascii" -> [SetG(s, e.n, [p |-> e.obs.p, f |-> e.obs.f, pr |-> e.obs.pr]) EXCEPT !.known = @ \cup Rng(e.obs.f)]
      [] OTHER -> s

Ok(e, b) == IF Raised(e) THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
Is(o, obs) == obs.p = o.p /\ obs.f = o.f /\ obs.n = Len(o.p)
\* properties are observed in any order
SameProps(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \E j \in DOMAIN b : b[j] = a[i]
KelpOf(s, o, feat, a) == {<<Kji(s.x, c)[2], Kji(s.x, c)[3]>> : c \in UNION {{IF PolOf(o.p[i][d + 2]) = 1 THEN o.p[i][d] ELSE o.p[i][d] - Stride(s.x, a) :
                          d \in {z \in 1..2 : AxisOf(o.p[i][z + 2]) = a /\ (PolOf(o.p[i][z + 2]) = 1 \/ At(s.x, o.p[i][z], a) > 0)}} : i \in {j \in DOMAIN o.p : o.p[j][5] = feat}}}
GcsBad(s, e) ==
    LET t == GcsPost(s, e) IN
    CASE e.op = "faces" -> Ok(e, /\ Is(t.g[e.n], e.obs)
                                 /\ \A a \in 1..3 : \A m \in DOMAIN e.obs.props[a] :
                                     LET l == e.l[a]  v == e.props[a][m]  w == e.obs.props[a][m]  q == IF e.dups THEN l ELSE Ordered(s.x, Rng(l)) IN
                                     Len(w) = Len(q) /\ \A i \in DOMAIN q : IF e.dups THEN w[i] = v[i] ELSE w[i] \in {v[j] : j \in {h \in DOMAIN l : l[h] = q[i]}})
      [] e.op \in {"masks", "kelp", "skin", "append", "raw", "rework"} -> Ok(e, Is(t.g[e.n], e.obs))
      [] e.op = "df" -> Ok(e, Is(t.g[e.n], e.obs) /\ (e.saved => SameProps(t.g[e.n].pr, e.obs.pr)))
      [] e.op \in {"layers", "mask", "single"} ->
            Ok(e, IF NoSel(s, e) THEN e.obs.none
                  ELSE /\ ~ e.obs.none /\ Is(t.g[e.n], e.obs)
                       /\ (e.op # "single" => e.obs.idx = [i \in DOMAIN SelIndices(s, e) |-> SelIndices(s, e)[i] - 1])
                       /\ (e.inh => SameProps(t.g[e.n].pr, e.obs.pr)))
      [] e.op = "save" -> Ok(e, Is(t.g[e.n], e.obs) /\ SameProps(t.g[e.n].pr, e.obs.pr))
      [] e.op = "merge" -> Ok(e, LET o == JoinAll(s, e.l) IN Is(o, e.obs) /\ Len(e.obs.pr) = Len(e.props) /\ \A i \in DOMAIN e.props :
                                  \E j \in DOMAIN e.obs.pr : e.obs.pr[j].v = Flat([h \in DOMAIN e.l |-> PropOf(s.g[e.l[h]], e.props[i][h]).v]) /\ e.obs.pr[j].t = e.props[i][1])
      [] e.op = "inherit" -> Ok(e, InheritOk(s.g[e.n], s.g[e.from], e.obs))
      [] e.op = "info" -> LET o == s.g[e.n] IN Ok(e, /\ e.obs.names = o.f /\ e.obs.count = Len(o.f)
                              /\ e.obs.found = (IF \E i \in DOMAIN o.f : o.f[i] = e.name THEN MinOf({i \in DOMAIN o.f : o.f[i] = e.name}) - 1 ELSE -1)
                              /\ e.obs.compact = [i \in DOMAIN o.p |-> <<6 * o.p[i][1] + o.p[i][3], 6 * o.p[i][2] + o.p[i][4]>>]
                              /\ e.obs.lists = [h \in DOMAIN o.f |-> LET l == OfFeature(o, h - 1) IN [j \in DOMAIN l |-> LET r == o.p[l[j]] IN
                                                <<Kji(s.x, r[1]), Kji(s.x, r[2]), <<AxisOf(r[3]), PolOf(r[3])>>, <<AxisOf(r[4]), PolOf(r[4])>>>>]]
                              /\ \A h \in DOMAIN o.f : Rng(e.obs.kelp[h][1]) = KelpOf(s, o, h - 1, 1) /\ Rng(e.obs.kelp[h][2]) = KelpOf(s, o, h - 1, 2))
      [] e.op = "at" -> LET o == s.g[e.n]  f == FaceOf(e.axis, e.pol)  S == {i \in DOMAIN o.p : \E d \in 1..2 : o.p[i][d] = e.cell /\ o.p[i][d + 2] = f} IN
                        Ok(e, e.obs = (IF S = {} THEN -1 ELSE o.p[MinOf(S)][5]))
      [] e.op = "edges" -> Ok(e, Rng(e.obs.list) = EdgesOf(s.x, s.g[e.n], e.feat, e.lo, e.hi) /\ Rng(e.obs.array) = EdgesOf(s.x, s.g[e.n], e.feat, e.lo, e.hi))
      [] e.op = "combined" -> Ok(e, CombinedOk(s, e))
      [] e.op = "facearrays" -> Ok(e, FaceArrayOk(s, e))
      [] e.op = "trmult" -> IF e.mode = "exception" /\ TrClash(s, e) THEN {x \in {"clash_accepted"} : ~ Raised(e)} ELSE Ok(e, TrOk(s, e))
      [] e.op = "columns" -> IF e.mode = "exception" /\ ColClash(s, e) THEN {x \in {"clash_accepted"} : ~ Raised(e)} ELSE Ok(e, ColsOk(s, e))
      [] e.op = "simulator" -> Ok(e, SameBag(e.obs, SimRows(s, e)))
      [] e.op = "ascii" -> Ok(e, SameBag([i \in DOMAIN e.obs.p |-> Named(e.obs)[i] \o <<e.obs.pr[1].v[i]>>], ReadBack(s, e)))
      [] e.op = "tr" -> Ok(e, TrArrayOk(s, e))
      [] e.op = "surface" -> Ok(e, SurfaceOk(s, e))
      [] e.op = "pinch" -> Ok(e, LET A == Rng(e.obs.pinch)  B == Rng(e.obs.gap) IN
                              /\ A = PinchPairs(e) /\ Cardinality(A) = Len(e.obs.pinch) /\ B = GapPairs(e) /\ Cardinality(B) = Len(e.obs.gap) /\ e.obs.faces)
      [] OTHER -> {x \in {e.op \o "_raised"} : Raised(e)}
=============================================================================
