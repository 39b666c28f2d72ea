----------------------------- MODULE Geom -----------------------------
(* The geometry of a grid: everything that can be asked of a grid follows   *)
(* from its points, the pillars of its columns, the gaps between its layers *)
(* and the units of its coordinates, whatever has been asked before.        *)
(* Answers are in whole numbers: corners as they are, face centres times 4, *)
(* cell centres times 8, volumes times 12 (as decimal mantissa & exponent). *)
EXTENDS Derived, TLC
Nan == -77777
GrNow(s, e) == s.g[e.g]
Planes(g) == Len(g.pts)
Cols(g) == g.x[2] * g.x[3]
Pillars(g) == (g.x[2] + 1) * (g.x[3] + 1)
PilOf(g, j, i, jp, ip) == g.pil[j * g.x[3] + i + 1][2 * jp + ip + 1]
PilAt(g, j, i) == j * (g.x[3] + 1) + i
Pt(g, pl, p) == IF p \in Seqs(g.dp) THEN <<>> ELSE g.pts[pl + 1][p + 1]
Gr(e) == Made(e) @@ [pts |-> e.pts, pil |-> e.pil, dp |-> e.dp, xu |-> e.xu, zu |-> e.zu, rh |-> e.rh, down |-> e.down]

Abs(n) == IF n < 0 THEN -n ELSE n
Lo(S) == CHOOSE n \in S : \A m \in S : n <= m
Hi(S) == CHOOSE n \in S : \A m \in S : n >= m
Plus(a, b) == Vec(LAMBDA d : a[d] + b[d])
Less(a, b) == Vec(LAMBDA d : a[d] - b[d])
Times(n, a) == Vec(LAMBDA d : n * a[d])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN <<0, 0, 0>> ELSE Plus(Head(q), Total(Tail(q)))
RECURSIVE Tens(_)
Tens(m) == IF m[1] # 0 /\ Abs(m[1]) = 10 * (Abs(m[1]) \div 10) THEN Tens(<<(IF m[1] < 0 THEN -1 ELSE 1) * (Abs(m[1]) \div 10), m[2] + 1>>) ELSE m
Decimal(m, p) == IF m = 0 THEN <<0, 0>> ELSE Tens(<<m, p>>)
Power(u) == IF u = "cm" THEN -2 ELSE 0
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)

\* one cell
Side(ax, b) == {n \in 1..8 : Bits(n)[ax] = b}
Face(cp, ax, b) == Total([i \in 1..4 |-> cp[LET S == Side(ax, b) IN CHOOSE n \in S : Cardinality({m \in S : m < n}) = i - 1]])
Between4(cp, ax) == Less(Face(cp, ax, 1), Face(cp, ax, 0))
Thick4(cp) == Abs(Between4(cp, 1)[3])
\* twelve times the volume within a bilinear face, its corners a, b = a + u, c = a + v, d seen from o
Lobe(o, a, b, c, d) == LET p == Less(a, o)  u == Less(b, a)  v == Less(c, a)  w == Less(Less(d, b), Less(c, a))
                       IN 4 * Dot(p, Cross(u, v)) + 2 * Dot(p, Cross(u, w)) + 2 * Dot(p, Cross(w, v)) - Dot(w, Cross(u, v))
Vol12(cp) == LET o == cp[1]  F(a, b, c, d) == Lobe(o, cp[a], cp[b], cp[c], cp[d])
             IN F(5, 6, 7, 8) - F(1, 2, 3, 4) + F(2, 4, 6, 8) - F(1, 3, 5, 7) + F(3, 7, 4, 8) - F(1, 5, 2, 6)
VolIn(g, cp, u) == Decimal((IF g.rh = g.down THEN -1 ELSE 1) * (Vol12(cp) \div 1), 2 * Power(g.xu) + Power(g.zu) - 3 * Power(u))
Span2(g, cp, ax, u) == LET v == Between4(cp, ax)  b == IF Power(g.xu) < Power(g.zu) THEN Power(g.xu) ELSE Power(g.zu)
                       IN Decimal((v[1] * v[1] + v[2] * v[2]) * Ten(2 * (Power(g.xu) - b)) + v[3] * v[3] * Ten(2 * (Power(g.zu) - b)), 2 * b - 2 * Power(u))
Box6(S) == <<Vec(LAMBDA d : Lo({p[d] : p \in S})), Vec(LAMBDA d : Hi({p[d] : p \in S}))>>
Trilinear(cp, f) == Mix(cp, 4, f)

\* for one cell, or (with no cell) all; nothing is said of cells without geometry
Each(g, c, f(_)) == IF c = 0 THEN [n \in 1..Count(g.x) |-> IF g.def[n] THEN f(n) ELSE <<>>] ELSE IF g.def[c] THEN f(c) ELSE <<>>
EachN(g, c, f(_)) == IF c = 0 THEN [n \in 1..Count(g.x) |-> IF g.def[n] THEN f(n) ELSE Nan] ELSE IF g.def[c] THEN f(c) ELSE Nan
Flag(b) == IF b THEN 1 ELSE 0
Dead(g, c) == g.ina[c] \/ ~ g.def[c]
Dot1(g, c) == \A b \in {0, 1} : LET t == KJI(g.x, c)  q == [n \in 1..4 |-> Pt(g, Plane(g.gap, t[1]) + b, g.pil[t[2] * g.x[3] + t[3] + 1][n])]
                                IN (\E n \in 1..4 : q[n] = <<>>) \/ \A n \in 1..4 : q[n] = q[1]
Around(g, pj, pi) == {p \in {pj - 1, pj} \X {pi - 1, pi} : p[1] >= 0 /\ p[1] < g.x[2] /\ p[2] >= 0 /\ p[2] < g.x[3]}
RECURSIVE AddUp(_, _, _, _, _)
AddUp(g, S, pl, pj, pi) == IF S = {} THEN <<0, 0, 0>> ELSE LET p == CHOOSE p \in S : TRUE IN Plus(Pt(g, pl, PilOf(g, p[1], p[2], pj - p[1], pi - p[2])), AddUp(g, S \ {p}, pl, pj, pi))
Healed4(g, pl, p) == LET pj == p \div (g.x[3] + 1)  pi == p - pj * (g.x[3] + 1)  C == Around(g, pj, pi)
                     IN IF p \in Seqs(g.dp) THEN <<>> ELSE Times(4 \div Cardinality(C), AddUp(g, C, pl, pj, pi))
Horizon(g, pl) == [c \in 1..Cols(g) |-> [n \in 1..4 |-> Pt(g, pl, g.pil[c][n])]]
TopOf(g, k) == Plane(g.gap, k)
Apart(g, j, i, ax, pol) == LET dj == IF ax = 1 THEN 2 * pol - 1 ELSE 0  di == IF ax = 2 THEN 2 * pol - 1 ELSE 0  jj == j + dj  ii == i + di
                           IN jj >= 0 /\ jj < g.x[2] /\ ii >= 0 /\ ii < g.x[3]
                              /\ \E b \in {0, 1} : IF ax = 1 THEN PilOf(g, j, i, pol, b) # PilOf(g, jj, ii, 1 - pol, b) ELSE PilOf(g, j, i, b, pol) # PilOf(g, jj, ii, b, 1 - pol)
Dist(g, pl, p, x, y) == LET q == Pt(g, pl, p) IN (2 * q[1] - x) * (2 * q[1] - x) + (2 * q[2] - y) * (2 * q[2] - y)
Alive(g) == {p \in 0..Pillars(g) - 1 : p \notin Seqs(g.dp)}
Nearest(g, pl, x, y) == {p \in Alive(g) : \A r \in Alive(g) : Dist(g, pl, p, x, y) <= Dist(g, pl, r, x, y)}
\* side of the point (times 2) of each edge of a top or base face
Turn(a, b, x, y) == (b[1] - a[1]) * (y - 2 * a[2]) - (b[2] - a[2]) * (x - 2 * a[1])
Ring(g, c, b) == LET cp == g.cp[c] IN <<cp[Crn(b, 0, 0)], cp[Crn(b, 0, 1)], cp[Crn(b, 1, 1)], cp[Crn(b, 1, 0)]>>
Turns(g, c, b, x, y) == LET r == Ring(g, c, b) IN {Turn(r[n], r[1 + (n - 4 * (n \div 4))], x, y) : n \in 1..4}
Inside(T) == (\A n \in T : n > 0) \/ (\A n \in T : n < 0)
Within(T) == (\A n \in T : n >= 0) \/ (\A n \in T : n <= 0)
Convex(g, c, b) == LET r == Ring(g, c, b) IN Within({Turn(r[n], r[1 + (n - 4 * (n \div 4))], 2 * r[m][1], 2 * r[m][2]) : n \in 1..4, m \in 1..4})
\* throw of an edge of a column: z of this column less the other's, summed over its two pillars and all planes
ThrowAt(g, j, i, ax, pol, pl, b) ==
    LET jj == j + IF ax = 1 THEN 2 * pol - 1 ELSE 0  ii == i + IF ax = 2 THEN 2 * pol - 1 ELSE 0
    IN IF ax = 1 THEN Pt(g, pl, PilOf(g, j, i, pol, b))[3] - Pt(g, pl, PilOf(g, jj, ii, 1 - pol, b))[3]
                 ELSE Pt(g, pl, PilOf(g, j, i, b, pol))[3] - Pt(g, pl, PilOf(g, jj, ii, b, 1 - pol))[3]
Throw(g, j, i, ax, pol) == IF ~ Apart(g, j, i, ax, pol) THEN 0 ELSE Sum([n \in 1..2 * Planes(g) |-> ThrowAt(g, j, i, ax, pol, (n - 1) \div 2, (n - 1) - 2 * ((n - 1) \div 2))], 1, 2 * Planes(g))
\* columns from each column to one with an edge where the grid is split
SplitCols(g) == {n \in 0..Cols(g) - 1 : \E ax \in {1, 2}, pol \in {0, 1} : Apart(g, n \div g.x[3], n - g.x[3] * (n \div g.x[3]), ax, pol)}
Walk(g, n, m) == Abs(n \div g.x[3] - m \div g.x[3]) + Abs((n - g.x[3] * (n \div g.x[3])) - (m - g.x[3] * (m \div g.x[3])))
NearSplit(g) == IF Len(g.pts[1]) = Pillars(g) THEN <<>> ELSE LET S == SplitCols(g) IN [n \in 1..Cols(g) |-> IF S = {} THEN g.x[2] + g.x[3] ELSE Lo({Walk(g, n - 1, m) : m \in S})]
Shape(g) == LET P == Pillars(g)
                Moved(p, pl) == <<g.pts[pl][p][1] - g.pts[1][p][1], g.pts[pl][p][2] - g.pts[1][p][2], g.pts[pl][p][3] - g.pts[1][p][3]>>
                N == Len(g.pts)
                A == 1..Len(g.pts[1])
                Upright == \A p \in A, pl \in 1..N : Moved(p, pl)[1] = 0 /\ Moved(p, pl)[2] = 0
                OnLine == \A p \in A, pl \in 1..N : Cross(Moved(p, N), Moved(p, pl)) = <<0, 0, 0>>
            IN IF Upright THEN "vertical" ELSE IF OnLine THEN "straight" ELSE "curved"
AllPts(g) == {Pt(g, pl - 1, p - 1) : pl \in 1..Planes(g), p \in 1..Len(g.pts[1])} \ {<<>>}
OuterCell(g, b) == At(g.x, b[1] * (g.x[1] - 1), b[2] * (g.x[2] - 1), b[3] * (g.x[3] - 1))
Outer(g) == {g.cp[OuterCell(g, b)][Crn(b[1], b[2], b[3])] : b \in {b \in {0, 1} \X {0, 1} \X {0, 1} : g.def[OuterCell(g, b)]}}
NotDead(g, pinch, def) == Cardinality({c \in 1..Count(g.x) : (~ pinch \/ (g.def[c] /\ Thick4(g.cp[c]) # 0)) /\ (~ def \/ g.def[c])})
Section(g, ax, n, pol) ==   \* layers, columns along the section, upper then lower, near then far
    [k \in 1..g.x[1] |-> [m \in 1..(IF ax = 2 THEN g.x[2] ELSE g.x[3]) |->
        [q \in 1..4 |-> LET kp == (q - 1) \div 2  b == (q - 1) - 2 * kp  pl == TopOf(g, k - 1) + kp
                        IN IF ax = 2 THEN Pt(g, pl, PilOf(g, m - 1, n, b, pol)) ELSE Pt(g, pl, PilOf(g, n, m - 1, pol, b))]]]

\* the points of an unfaulted grid with one of their three indices fixed
Slice(g, ax, n) == LET w == g.x[3] + 1  rows == IF ax = 0 THEN g.x[2] + 1 ELSE Planes(g)  cols == IF ax = 2 THEN g.x[2] + 1 ELSE w
                   IN [m \in 1..rows * cols |-> LET a == (m - 1) \div cols  b == (m - 1) - a * cols
                                                IN IF ax = 0 THEN Pt(g, n, a * w + b) ELSE IF ax = 1 THEN Pt(g, a, n * w + b) ELSE Pt(g, a, b * w + n)]

GeomInit == [g |-> <<>>]
Answer(s, e) ==
    LET g == GrNow(s, e)  a == e.a  c == e.c
    IN CASE e.q = "corners" -> Each(g, c, LAMBDA n : g.cp[n])
         [] e.q = "point" -> Each(g, c, LAMBDA n : g.cp[n][a[1]])
         [] e.q = "centre" -> Each(g, c, LAMBDA n : Total(g.cp[n]))
         [] e.q = "face" -> Each(g, c, LAMBDA n : Face(g.cp[n], a[1], a[2]))
         [] e.q = "faces" -> Each(g, c, LAMBDA n : [m \in 1..6 |-> Face(g.cp[n], (m + 1) \div 2, IF m = 2 * (m \div 2) THEN 1 ELSE 0)])
         [] e.q = "across" -> Each(g, c, LAMBDA n : [ax \in 1..3 |-> Between4(g.cp[n], ax)])
         [] e.q = "span" -> Each(g, c, LAMBDA n : [ax \in 1..3 |-> Span2(g, g.cp[n], ax, e.u)])
         [] e.q = "thick" -> EachN(g, c, LAMBDA n : Thick4(g.cp[n]))
         [] e.q = "volume" -> Each(g, c, LAMBDA n : VolIn(g, g.cp[n], e.u))
         [] e.q = "pinched" -> IF c = 0 THEN [n \in 1..Count(g.x) |-> Flag(~ g.def[n] \/ Thick4(g.cp[n]) = 0)] ELSE EachN(g, c, LAMBDA n : Flag(Thick4(g.cp[n]) = 0))
         [] e.q = "dots" -> [n \in 1..Count(g.x) |-> Dot1(g, n)]
         [] e.q = "bounds" -> Each(g, c, LAMBDA n : Box6(Seqs(g.cp[n])))
         [] e.q = "ring" -> Each(g, c, LAMBDA n : Ring(g, n, a[1]))
         [] e.q = "within" -> Each(g, c, LAMBDA n : [m \in 1..Len(e.f) |-> Trilinear(g.cp[n], e.f[m])])
         [] e.q = "inactive" -> Flag(Dead(g, c))
         [] e.q = "column" -> Flag(\A k \in 0..g.x[1] - 1 : Dead(g, At(g.x, k, a[1], a[2])))
         [] e.q = "count" -> IF e.u = "active" THEN Cardinality({n \in 1..Count(g.x) : ~ Dead(g, n)}) ELSE NotDead(g, e.u = "thick", e.u # "all")
         [] e.q = "defined" -> Flag(g.def[c])
         [] e.q = "pillar" -> Flag(PilAt(g, a[1], a[2]) \notin Seqs(g.dp))
         [] e.q = "flags" -> <<Flag(\A n \in DOMAIN g.def : g.def[n]), Flag(g.dp = <<>>)>>
         [] e.q = "healed" -> [pl \in 1..Planes(g) |-> [p \in 1..Pillars(g) |-> Healed4(g, pl - 1, p - 1)]]
         [] e.q = "horizon" -> LET pl == TopOf(g, a[1]) + a[2] IN [p \in 1..Pillars(g) |-> IF e.u = "healed" THEN Healed4(g, pl, p - 1) ELSE Pt(g, pl, p - 1)]
         [] e.q = "split" -> Horizon(g, TopOf(g, a[1]) + a[2])
         [] e.q = "splits" -> [pl \in 1..a[2] - a[1] + 1 |-> Horizon(g, a[1] + pl - 1)]
         [] e.q = "section" -> Section(g, a[1], a[2], a[3])
         [] e.q = "ends" -> [p \in 1..Pillars(g) |-> <<Pt(g, 0, p - 1), Pt(g, Planes(g) - 1, p - 1)>>]
         [] e.q = "depths" -> Each(g, 0, LAMBDA n : [m \in 1..8 |-> g.cp[n][m][3]])
         [] e.q = "pillars" -> g.pil
         [] e.q = "foursome" -> [n \in 1..4 |-> LET j == a[1] - 1 + (n - 1) \div 2  i == a[2] - 1 + (n - 1) - 2 * ((n - 1) \div 2)
                                                IN IF <<j, i>> \in Around(g, a[1], a[2]) THEN PilOf(g, j, i, a[1] - j, a[2] - i) ELSE PilAt(g, a[1], a[2])]
         [] e.q = "apart" -> Flag(Apart(g, a[1], a[2], a[3], a[4]))
         [] e.q = "aparts" -> <<[n \in 1..(g.x[2] - 1) * g.x[3] |-> Flag(Apart(g, (n - 1) \div g.x[3], (n - 1) - g.x[3] * ((n - 1) \div g.x[3]), 1, 1))],
                                [n \in 1..g.x[2] * (g.x[3] - 1) |-> Flag(Apart(g, (n - 1) \div (g.x[3] - 1), (n - 1) - (g.x[3] - 1) * ((n - 1) \div (g.x[3] - 1)), 2, 1))]>>
         [] e.q = "throw" -> [n \in 1..Cols(g) |-> [m \in 1..4 |-> Throw(g, (n - 1) \div g.x[3], (n - 1) - g.x[3] * ((n - 1) \div g.x[3]), 1 + (m - 1) \div 2, (m - 1) - 2 * ((m - 1) \div 2))]]
         [] e.q = "near" -> NearSplit(g)
         [] e.q = "shape" -> Shape(g)
         [] e.q = "hand" -> Flag(g.rh)
         [] e.q = "slice" -> Slice(g, a[1], a[2])
         [] e.q = "natural" -> <<c - 1, KJI(g.x, c)>>
         [] e.q = "box" -> Box6(AllPts(g))
         [] OTHER -> "?"
\* answers of which several are right
Fits(s, e) ==
    LET g == GrNow(s, e)  a == e.a
    IN CASE e.q = "nearest" -> e.obs \in Nearest(g, TopOf(g, a[3]) + a[4], a[1], a[2])
         [] e.q = "lazybox" -> e.obs = Box6(AllPts(g)) \/ e.obs = (IF Outer(g) = {} THEN <<<<>>, <<>>>> ELSE Box6(Outer(g)))
         \* a column whose cell in the layer contains the point, if any has the pillar nearest to it
         [] e.q = "find" ->
            LET C == {n \in 1..Cols(g) : g.def[a[3] * Cols(g) + n]}
                N == Nearest(g, TopOf(g, a[3]) + a[4], a[1], a[2])
                T(n) == Turns(g, a[3] * Cols(g) + n, a[4], a[1], a[2])
            IN IF e.obs = 0 THEN \A n \in C : Seqs(g.pil[n]) \cap N # {} /\ Convex(g, a[3] * Cols(g) + n, a[4]) => ~ Inside(T(n))
               ELSE e.obs \in C /\ (Convex(g, a[3] * Cols(g) + e.obs, a[4]) => Within(T(e.obs)))
         [] OTHER -> e.obs = Answer(s, e)

Moved(g, pts) == LET e == [x |-> g.x, pts |-> pts, pil |-> g.pil, gap |-> g.gap, def |-> g.def, ina |-> g.ina] IN [g EXCEPT !.pts = pts, !.cp = Made(e).cp]
GeomPost(s, e) ==
    CASE e.op = "make" -> [s EXCEPT !.g = Append(@, Gr(e))]
      [] e.op = "move" -> [s EXCEPT !.g[e.g] = [Moved(@, e.pts) EXCEPT !.ina = IF e.ina = <<>> THEN @ ELSE e.ina]]
      [] OTHER -> s
GeomBad(s, e) ==
    IF Raised(e) THEN {(IF e.op = "ask" THEN e.q ELSE e.op) \o "_raised"} ELSE
    IF e.op = "ask" THEN {x \in {e.q} : ~ Fits(s, e)} ELSE {}
=============================================================================
