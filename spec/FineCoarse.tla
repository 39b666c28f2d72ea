------------------------------ MODULE FineCoarse ------------------------------
(* Mappings between the cells of a fine and a coarse grid, one per number.    *)
(* A mapping has the two extents (k, j, i), for each axis the number of fine  *)
(* cells in each coarse slice (<<>> until set), and weights of the fine cells *)
(* of each slice (<<>> for equal); also the window that the coarse (refining) *)
(* or the fine (coarsening) extent is of a larger grid: the side and corners. *)
(* Cells and slices count from 0; axes are 0..2.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

A3 == 1..3
NoWin == [side |-> "none", lo |-> <<>>, hi |-> <<>>]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Base(q, c) == Sum(SubSeq(q, 1, c))
Const(n, x) == [i \in 1..n |-> x]
RECURSIVE MapFrom(_, _)
MapFrom(q, c) == IF q = <<>> THEN <<>> ELSE Const(q[1], c) \o MapFrom(Tail(q), c + 1)
Map(q) == MapFrom(q, 0)

\* ---- setting up
Ext(lo, hi) == [a \in A3 |-> hi[a] - lo[a] + 1]
BoxFits(b, x) == \A a \in A3 : 0 <= b[1][a] /\ b[1][a] <= b[2][a] /\ b[2][a] - b[1][a] + 1 = x[a]
NewOk(e) == /\ \A a \in A3 : e.f[a] > 0 /\ e.c[a] <= e.f[a]
            /\ (e.wf = <<>> \/ e.wc = <<>>)
            /\ (e.wf # <<>> => BoxFits(e.wf, e.f)) /\ (e.wc # <<>> => BoxFits(e.wc, e.c))
Win(e) == IF e.wf # <<>> THEN [side |-> "fine", lo |-> e.wf[1], hi |-> e.wf[2]]
          ELSE IF e.wc # <<>> THEN [side |-> "coarse", lo |-> e.wc[1], hi |-> e.wc[2]] ELSE NoWin
New(e) == [f |-> e.f, c |-> e.c, r |-> <<<<>>, <<>>, <<>>>>, w |-> <<<<>>, <<>>, <<>>>>, win |-> Win(e)]
Even(x, a) == x.f[a] - x.c[a] * (x.f[a] \div x.c[a]) = 0
ConstOk(x, as) == \A a \in as : Even(x, a)
SetConst(x, as) == [x EXCEPT !.r = [a \in A3 |-> IF a \in as THEN Const(x.c[a], x.f[a] \div x.c[a]) ELSE x.r[a]]]
VecOk(x, a, v) == Len(v) = x.c[a] /\ (\A i \in DOMAIN v : v[i] > 0) /\ Sum(v) = x.f[a]
PropOk(x, a, l) == /\ x.r[a] # <<>> /\ Len(l) = x.c[a]
                   /\ \A i \in DOMAIN l : Len(l[i]) = x.r[a][i] /\ \A j \in DOMAIN l[i] : l[i][j] > 0
AllSame(l) == \A i \in DOMAIN l : \A j \in DOMAIN l[i] : l[i][j] = l[i][1]
SetProp(x, a, l) == [x EXCEPT !.w[a] = IF AllSame(l) THEN <<>> ELSE l]
Known(x) == \A a \in A3 : x.r[a] # <<>>
Valid(x) == \A a \in A3 : x.r[a] # <<>> /\ (x.w[a] = <<>> \/ PropOk(x, a, x.w[a]))

\* ---- asking
Slice(x, a, c) == IF x.w[a] = <<>> THEN Const(x.r[a][c], 1) ELSE x.w[a][c]   \* c from 1
\* p is a list of fractions <<num, den>> that are in the proportions of the weights
Fractions(p, w) == Len(p) = Len(w) /\ \A i \in DOMAIN w : p[i][1] * Sum(w) = p[i][2] * w[i]
Partial(p, w) == Len(p) = Len(w) /\ \A i \in DOMAIN w : p[i][1] * Sum(w) = p[i][2] * Base(w, i - 1)
RECURSIVE Concat(_)
Concat(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Concat(Tail(l))
FracAxis(p, x, a) == LET q == x.r[a] IN
    /\ Len(p) = Sum(q)
    /\ \A c \in DOMAIN q : Fractions(SubSeq(p, Base(q, c - 1) + 1, Base(q, c)), Slice(x, a, c))
\* natural (row by row) index of a column, and of a pillar: the first fine one in or at the coarse one
Nat2(n, plus, x, j, i) == LET wide == IF plus = 1 THEN x[3] + 1 ELSE x[3] IN j * wide + i
Column(x, n) == LET j == n \div x.c[3]  i == n - j * x.c[3] IN Base(x.r[2], j) * x.f[3] + Base(x.r[3], i)
Pillar(x, n) == LET j == n \div (x.c[3] + 1)  i == n - j * (x.c[3] + 1) IN Base(x.r[2], j) * (x.f[3] + 1) + Base(x.r[3], i)
FBox(x, c) == [lo |-> [a \in A3 |-> Base(x.r[a], c[a])], hi |-> [a \in A3 |-> Base(x.r[a], c[a] + 1) - 1]]
\* a refinement as text for a simulator: axes i, j, k and indices from 1
RECURSIVE Words(_)
Words(q) == IF q = <<>> THEN "" ELSE " " \o ToString(q[1]) \o Words(Tail(q))
Span(lo, hi) == ToString(lo + 1) \o " " \o ToString(hi + 1)
Cartref(x, e) == Const(e.pre, "") \o (IF e.root = "" THEN <<>> ELSE <<"LGR " \o e.root>>) \o
    <<"LGR", "CARTREF " \o e.name,
      "   " \o Span(x.win.lo[3], x.win.hi[3]) \o "  " \o Span(x.win.lo[2], x.win.hi[2]) \o "  " \o Span(x.win.lo[1], x.win.hi[1]),
      "  " \o Words(x.r[3]), "  " \o Words(x.r[2]), "  " \o Words(x.r[1]), "ENDREF", "ENDLGR">> \o Const(e.post, "")
CartrefOk(x, e) == x.win.side = "coarse" /\ ~ e.bad /\ Known(x)

\* a tartan refinement: the ratio d slices away from the fovea
Abs(x) == IF x < 0 THEN -x ELSE x
Pow2(k) == IF k = 0 THEN 1 ELSE IF k > 12 THEN 4096 ELSE 2 * (IF k = 1 THEN 1 ELSE IF k = 2 THEN 2 ELSE IF k = 3 THEN 4 ELSE IF k = 4 THEN 8 ELSE IF k = 5 THEN 16 ELSE IF k = 6 THEN 32 ELSE IF k = 7 THEN 64 ELSE IF k = 8 THEN 128 ELSE IF k = 9 THEN 256 ELSE IF k = 10 THEN 512 ELSE IF k = 11 THEN 1024 ELSE 2048)
NearInt(v, num, den) == 2 * Abs(v * den - num) <= den      \* v is num/den rounded (either way from the half)
\* rate: quarters for linear; for exponential the number of halvings per slice, or -1 for an immediate end
Tartan(v, F, d, mode, rate) ==
    IF d = 0 THEN v = F
    ELSE IF mode = "linear" THEN (IF 4 * F - d * rate <= 4 THEN v = 1 ELSE NearInt(v, 4 * F - d * rate, 4))
    ELSE IF rate = -1 THEN v = 1
    ELSE IF F <= Pow2(rate * d) THEN v = 1 ELSE NearInt(v, F, Pow2(rate * d))
Dist(lo, hi, i) == IF i < lo THEN lo - i ELSE IF i > hi THEN i - hi ELSE 0
\* by default a linear decay is, on either side, a straight line to one at the outer edge of the grid (n slices on that side)
TartanLine(v, F, d, n) == d = 0 \/ NearInt(v, F * (2 * n + 1) - 2 * d * (F - 1), 2 * n + 1)
TartanOk(e, r) == \A a \in A3 : LET q == r[a]  D(i) == Dist(e.lo[a], e.hi[a], i - 1) IN
    /\ Len(q) = e.c[a] /\ \A i \in DOMAIN q : q[i] >= 1 /\ (D(i) = 0 => q[i] = e.fr[a])
    /\ \A i \in DOMAIN q : i < Len(q) => ((i - 1 < e.lo[a] => q[i] <= q[i + 1]) /\ (i > e.hi[a] => q[i] >= q[i + 1]))
    /\ (e.rates # <<>> => \A i \in DOMAIN q : Tartan(q[i], e.fr[a], D(i), e.mode, e.rates[a]))
    /\ (e.rates = <<>> /\ e.mode = "linear" =>
        \A i \in DOMAIN q : TartanLine(q[i], e.fr[a], D(i), IF i - 1 < e.lo[a] THEN e.lo[a] ELSE e.c[a] - 1 - e.hi[a]))
TartanArgs(e) == /\ \A a \in A3 : 0 <= e.lo[a] /\ e.lo[a] <= e.hi[a] /\ e.hi[a] < e.c[a] /\ e.fr[a] >= 1
                 /\ e.mode \in {"linear", "exponential"}
TartanNew(e, r) == [f |-> [a \in A3 |-> Sum(r[a])], c |-> e.c, r |-> r, w |-> <<<<>>, <<>>, <<>>>>, win |-> Win(e)]

\* kept as the parent window of a grid and read again; without a window it is all at the start
One(x) == \A a \in A3 : \A i \in DOMAIN x.r[a] : x.r[a][i] = 1
Stored(x, refine) == LET big == IF refine THEN x.c ELSE x.f
                         lo == IF x.win.side = (IF refine THEN "coarse" ELSE "fine") THEN x.win.lo ELSE <<0, 0, 0>>
                     IN [x EXCEPT !.win = [side |-> IF refine \/ One(x) THEN "coarse" ELSE "fine", lo |-> lo, hi |-> [a \in A3 |-> lo[a] + big[a] - 1]]]

\* what is seen of a mapping: like the mapping, with fractions for all fine cells of the axes
SameMap(o, x) == /\ o.f = x.f /\ o.c = x.c /\ o.r = x.r /\ o.win = x.win
                 /\ \A a \in A3 : (o.w[a] = <<>>) = (x.w[a] = <<>>) /\ (x.w[a] # <<>> => FracAxis(o.w[a], x, a))

FcInit == [m |-> <<>>, file |-> <<>>]
Set(s, n, x) == [s EXCEPT !.m = (n :> x) @@ @]
Refusal(s, e) ==
    CASE e.op = "new" -> ~ NewOk(e)
      [] e.op = "const" -> ~ ConstOk(s.m[e.n], {e.axes[i] + 1 : i \in DOMAIN e.axes})
      [] e.op = "vec" -> ~ VecOk(s.m[e.n], e.axis + 1, e.v)
      [] e.op = "props" -> ~ PropOk(s.m[e.n], e.axis + 1, e.l)
      [] e.op = "look" -> ~ Known(s.m[e.n])
      [] e.op = "cartref" -> ~ CartrefOk(s.m[e.n], e)
      [] e.op = "tartan" -> ~ TartanArgs(e)
      [] OTHER -> FALSE
FcPost(s, e) ==
    IF Refusal(s, e) THEN s ELSE
    CASE e.op = "new" -> Set(s, e.n, New(e))
      [] e.op = "const" -> Set(s, e.n, SetConst(s.m[e.n], {e.axes[i] + 1 : i \in DOMAIN e.axes}))
      [] e.op = "vec" -> Set(s, e.n, [s.m[e.n] EXCEPT !.r[e.axis + 1] = e.v])
      [] e.op = "props" -> Set(s, e.n, SetProp(s.m[e.n], e.axis + 1, e.l))
      [] e.op = "equal" -> Set(s, e.n, [s.m[e.n] EXCEPT !.w = [a \in A3 |-> IF a - 1 = e.axis \/ e.axis = 3 THEN <<>> ELSE @[a]]])
      [] e.op = "tartan" -> Set(s, e.n, TartanNew(e, e.obs.r))
      [] e.op = "store" -> Set(s, e.to, Stored(s.m[e.n], e.refine))
      [] e.op = "cartref" -> [s EXCEPT !.file = IF e.append THEN @ \o Cartref(s.m[e.n], e) ELSE Cartref(s.m[e.n], e)]
      [] OTHER -> s

Raised(e) == e.res.k # "ok"
Ok(e, b) == IF Raised(e) THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
FcBad(s, e) ==
    IF Refusal(s, e) THEN {x \in {e.op \o "_accepted"} : ~ Raised(e)} ELSE
    LET t == FcPost(s, e) IN
    CASE e.op = "look" -> Ok(e, e.obs = [a \in A3 |-> Map(s.m[e.n].r[a])])
      [] e.op = "valid" -> {x \in {"valid"} : Raised(e) = Valid(s.m[e.n])}
      [] e.op = "cell" -> Ok(e, LET x == s.m[e.n] IN
                                 /\ e.obs.ratios = [a \in A3 |-> x.r[a][e.c[a] + 1]]
                                 /\ e.obs.base = FBox(x, e.c).lo /\ e.obs.lo = FBox(x, e.c).lo /\ e.obs.hi = FBox(x, e.c).hi)
      [] e.op = "slice" -> Ok(e, LET x == s.m[e.n]  a == e.axis + 1  w == Slice(x, a, e.c + 1) IN
                                  /\ Fractions(e.obs.p, w) /\ Partial(e.obs.q, w) /\ FracAxis(e.obs.all, x, a))
      [] e.op = "columns" -> Ok(e, LET x == s.m[e.n] IN
                                    /\ e.obs.cols = [i \in 1..x.c[2] * x.c[3] |-> Column(x, i - 1)]
                                    /\ e.obs.pillars = [i \in 1..(x.c[2] + 1) * (x.c[3] + 1) |-> Pillar(x, i - 1)])
      [] e.op = "cartref" -> Ok(e, e.obs = t.file)
      [] e.op = "tartan" -> IF Raised(e) THEN {"tartan_raised"} ELSE IF ~ TartanOk(e, e.obs.r) THEN {"tartan_ratios"} ELSE {x \in {"tartan"} : ~ SameMap(e.obs, t.m[e.n])}
      [] e.op = "store" -> Ok(e, SameMap(e.obs, t.m[e.to]))
      [] e.op = "new" -> Ok(e, SameMap(e.obs, t.m[e.n]))
      [] OTHER -> {x \in {e.op \o "_raised"} : Raised(e)}
=============================================================================
