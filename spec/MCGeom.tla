------------------------------ MODULE MCGeom ------------------------------
(* Small grids on pillars, moved about: what the questions have to do with  *)
(* each other.                                                              *)
EXTENDS Geom
CONSTANT MaxSteps
VARIABLES s, n
Extents == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 2, 1>>, <<1, 2, 2>>}
\* the pillars between columns of the first and later J, if thrown, are doubled for the later ones
Prim(x, p) == LET j == p \div (x[3] + 1) IN <<j, p - j * (x[3] + 1)>>
Here(x, j, i, k, lean, drop) == <<3 * i + lean * k * j, 2 * j + lean * k, 4 * k + i + lean * i * j * k + drop>>
Whole1(x) == (x[2] + 1) * (x[3] + 1)
Base(x, thr, lean, gap, hand) ==
    LET planes == x[1] + 1 + Cardinality({k \in 1..x[1] - 1 : gap})
        split == thr # 0 /\ x[2] = 2
        total == Whole1(x) + IF split THEN x[3] + 1 ELSE 0
        Where(p) == IF p < Whole1(x) THEN Prim(x, p) ELSE <<1, p - Whole1(x)>>
    IN [x |-> x, gap |-> [k \in 1..x[1] - 1 |-> gap], def |-> [c \in 1..Count(x) |-> TRUE], ina |-> [c \in 1..Count(x) |-> c = 2],
        pts |-> [pl \in 1..planes |-> [p \in 1..total |-> LET w == Where(p - 1) IN Vec(LAMBDA d : (IF d = 1 THEN hand ELSE 1) *
                   Here(x, w[1], w[2], pl - 1, lean, IF split /\ (p > Whole1(x) \/ w[1] = 2) THEN thr ELSE 0)[d])]],
        pil |-> [c \in 1..x[2] * x[3] |-> LET j == (c - 1) \div x[3]  i == (c - 1) - j * x[3] IN
                   [q \in 1..4 |-> LET p == (j + (q - 1) \div 2) * (x[3] + 1) + i + (q - 1) - 2 * ((q - 1) \div 2) IN
                                   IF split /\ j = 1 /\ q < 3 THEN Whole1(x) + i + q - 1 ELSE p]],
        dp |-> <<>>, xu |-> "m", zu |-> "cm", rh |-> hand = -1, down |-> TRUE]
Ok0 == [k |-> "ok", what |-> ""]
Ops(g) == {[op |-> "move", g |-> 1, ina |-> <<>>, res |-> Ok0, pts |-> [pl \in DOMAIN g.pts |-> [p \in DOMAIN g.pts[pl] |-> Plus(g.pts[pl][p], w)]]] : w \in {<<1, -2, 3>>, <<0, 0, -5>>}}
          \cup {[op |-> "move", g |-> 1, ina |-> <<>>, res |-> Ok0, pts |-> [pl \in DOMAIN g.pts |-> [p \in DOMAIN g.pts[pl] |-> IF p = 1 THEN Plus(g.pts[pl][p], <<0, 0, -1>>) ELSE g.pts[pl][p]]]]}
Init == n = 0 /\ \E x \in Extents, thr \in {0, 2}, lean \in 0..1, gap \in BOOLEAN, hand \in {1, -1} :
          s = GeomPost(GeomInit, [Base(x, thr, lean, gap, hand) EXCEPT !.down = TRUE] @@ [op |-> "make", res |-> Ok0])
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Ops(s.g[1]) : s' = GeomPost(s, e)
Spec == Init /\ [][Next]_<<s, n>>
G == s.g[1]
Cells == 1..Count(G.x)
Ask(q, c, a, u) == Answer(s, [op |-> "ask", g |-> 1, q |-> q, c |-> c, a |-> a, u |-> u, f |-> <<>>, obs |-> 0])
\* one cell at a time as all at once
OneOrAll == \A q \in {"corners", "centre", "thick", "pinched", "volume"} : \A c \in Cells : Ask(q, c, <<>>, "m") = Ask(q, 0, <<>>, "m")[c]
\* the eight corners say the rest
Corners == \A c \in Cells : LET cp == G.cp[c] IN
    /\ \A m \in 1..8 : Ask("point", c, <<m>>, "") = cp[m]
    /\ \A ax \in 1..3 : Plus(Face(cp, ax, 0), Face(cp, ax, 1)) = Total(cp)
    /\ \A d \in 1..3 : \A m \in 1..8 : Box6(Seqs(cp))[1][d] <= cp[m][d] /\ cp[m][d] <= Box6(Seqs(cp))[2][d]
    /\ Trilinear(cp, <<0, 4, 0>>) = Times(64, cp[3]) /\ Trilinear(cp, <<2, 2, 2>>) = Times(8, Total(cp))
    /\ Abs(Between4(cp, 1)[3]) = Thick4(cp)
\* a volume is the sum of those of its parts, wherever it is; mirrored it changes sign
Whole12(c) == Vol12(G.cp[c])
Shift(cp, w) == [m \in 1..8 |-> Plus(cp[m], w)]
Mirror(cp) == [m \in 1..8 |-> Vec(LAMBDA d : IF d = 3 THEN -cp[m][d] ELSE cp[m][d])]
RECURSIVE AllVol(_, _)
AllVol(g, c) == IF c = 0 THEN 0 ELSE Vol12(g.cp[c]) + AllVol(g, c - 1)
Half(cp, ax, b) == [m \in 1..8 |-> Mix(cp, 2, Vec(LAMBDA a : IF a = ax THEN Bits(m)[a] + b ELSE 2 * Bits(m)[a]))]
Volumes == \A c \in Cells : LET v == Whole12(c)  cp == G.cp[c] IN
    /\ v # 0 /\ Vol12(Shift(cp, <<7, -3, 2>>)) = v /\ Vol12(Mirror(cp)) = -v
    /\ \A ax \in 1..3 : Vol12(Half(cp, ax, 0)) + Vol12(Half(cp, ax, 1)) = 512 * v
    /\ (v > 0) = (G.cp[c][2][1] > G.cp[c][1][1])
    /\ Ask("volume", c, <<>>, "m")[1] > 0
\* layers meet unless there is a gap; columns meet unless they are split
Layers == G.gap = Flags(G.x[1] - 1) => \A c \in Cells : LET t == KJI(G.x, c) IN t[1] > 0 => \A m \in 1..4 : G.cp[c][m] = G.cp[At(G.x, t[1] - 1, t[2], t[3])][m + 4]
Opp(ax, pol, j, i) == <<j + (IF ax = 1 THEN 2 * pol - 1 ELSE 0), i + (IF ax = 2 THEN 2 * pol - 1 ELSE 0)>>
Columns == \A j \in 0..G.x[2] - 1, i \in 0..G.x[3] - 1, ax \in 1..2, pol \in 0..1 :
    LET o == Opp(ax, pol, j, i)  in == o[1] >= 0 /\ o[1] < G.x[2] /\ o[2] >= 0 /\ o[2] < G.x[3] IN
    /\ (~ in => ~ Apart(G, j, i, ax, pol))
    /\ in => Apart(G, j, i, ax, pol) = Apart(G, o[1], o[2], ax, 1 - pol) /\ Throw(G, j, i, ax, pol) = -Throw(G, o[1], o[2], ax, 1 - pol)
\* horizons, sections and corners are the same points
Same == /\ \A k \in 0..G.x[1] - 1, kp \in 0..1, c \in 1..Cols(G), q \in 1..4 : Ask("split", 0, <<k, kp>>, "")[c][q] = G.cp[k * Cols(G) + c][4 * kp + q]
        /\ \A i \in 0..G.x[3] - 1, pol \in 0..1 : LET v == Section(G, 2, i, pol) IN
             \A k \in 1..G.x[1], j \in 1..G.x[2], q \in 1..4 : v[k][j][q] = G.cp[At(G.x, k - 1, j - 1, i)][Crn((q - 1) \div 2, (q - 1) - 2 * ((q - 1) \div 2), pol)]
\* healing does nothing where nothing is split, and otherwise gives a mean
Healing == /\ Len(G.pts[1]) = Pillars(G) => \A pl \in 1..Planes(G), p \in 1..Pillars(G) : Healed4(G, pl - 1, p - 1) = Times(4, G.pts[pl][p])
           /\ \A pl \in 1..Planes(G), p \in 1..Pillars(G) : LET h == Healed4(G, pl - 1, p - 1)[3] IN
                \E a, b \in AllPts(G) : 4 * a[3] <= h /\ h <= 4 * b[3]
Pinned == \A p \in 0..Pillars(G) - 1 : LET q == Pt(G, 0, p) IN p \in Nearest(G, 0, 2 * q[1], 2 * q[2])
Boxes == LET a == Box6(AllPts(G))  b == Box6(Outer(G)) IN \A d \in 1..3 : a[1][d] <= b[1][d] /\ b[2][d] <= a[2][d]
\* the middle of a cell's top is within it, if that is convex, and within no other
Find == \A c \in 1..Cols(G) : Convex(G, c, 0) => LET m == Face(G.cp[c], 1, 0) IN
    LET Ev(o) == [op |-> "ask", g |-> 1, q |-> "find", c |-> 0, a |-> <<m[1] \div 2, m[2] \div 2, 0, 0>>, u |-> "", f |-> <<>>, obs |-> o]
        here == m[1] = 2 * (m[1] \div 2) /\ m[2] = 2 * (m[2] \div 2) IN
    here => Inside(Turns(G, c, 0, m[1] \div 2, m[2] \div 2)) /\ Fits(s, Ev(c)) /\ (\A o \in 1..Cols(G) : o # c /\ Convex(G, o, 0) => ~ Inside(Turns(G, o, 0, m[1] \div 2, m[2] \div 2)))
Inv == OneOrAll /\ Corners /\ Volumes /\ Layers /\ Columns /\ Same /\ Healing /\ Pinned /\ Boxes /\ Find
=============================================================================
