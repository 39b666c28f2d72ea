--------------------------- MODULE Derived ---------------------------
(* Grids made from other grids.  A grid is its extent, the eight corners    *)
(* of every cell (in whole numbers over den), the gaps between its layers,  *)
(* which cells have a geometry, which are inactive and its parent window.   *)
(* Cells are numbered from 1 with the last index quickest, corners likewise *)
(* (upper before lower, then J, then I).                                    *)
EXTENDS Integers, Sequences, FiniteSets
Seqs(q) == {q[i] : i \in DOMAIN q}
At(x, k, j, i) == (k * x[2] + j) * x[3] + i + 1
Count(x) == x[1] * x[2] * x[3]
KJI(x, c) == LET k == (c - 1) \div (x[2] * x[3])  r == c - 1 - k * x[2] * x[3]  j == r \div x[3] IN <<k, j, r - j * x[3]>>
Crn(kp, jp, ip) == 4 * kp + 2 * jp + ip + 1
Bits(n) == <<(n - 1) \div 4, ((n - 1) \div 2) - 2 * ((n - 1) \div 4), (n - 1) - 2 * ((n - 1) \div 2)>>
None == [p |-> 0, fine |-> TRUE, lo |-> <<>>, hi |-> <<>>, r |-> <<>>]
Ones(n) == [i \in 1..n |-> 1]
RECURSIVE Sum(_, _, _)
Sum(q, a, b) == IF a > b THEN 0 ELSE q[a] + Sum(q, a + 1, b)
Flags(n) == [i \in 1..n |-> FALSE]
Vec(f(_)) == <<f(1), f(2), f(3)>>

\* a grid on pillars: pts[plane][pillar], pil[column] the four pillars of a column of cells (J, then I)
Plane(gap, k) == k + Cardinality({i \in DOMAIN gap : gap[i] /\ i <= k})
Made(e) == [x |-> e.x, den |-> 1, gap |-> e.gap, def |-> e.def, ina |-> e.ina, pw |-> None,
            cp |-> [c \in 1..Count(e.x) |-> LET t == KJI(e.x, c)  col == t[2] * e.x[3] + t[3] + 1
                                            IN IF ~ e.def[c] THEN <<>> ELSE [n \in 1..8 |-> LET b == Bits(n) IN e.pts[Plane(e.gap, t[1]) + b[1] + 1][e.pil[col][2 * b[2] + b[3] + 1] + 1]]]]

\* a box of cells
Boxed(g, lo, hi, more, src) ==
    LET x == Vec(LAMBDA a : hi[a] - lo[a] + 1)
        S(c) == LET t == KJI(x, c) IN At(g.x, lo[1] + t[1], lo[2] + t[2], lo[3] + t[3])
        n == Count(x)
    IN [x |-> x, den |-> g.den, gap |-> SubSeq(g.gap, lo[1] + 1, hi[1]), def |-> [c \in 1..n |-> g.def[S(c)]], ina |-> [c \in 1..n |-> g.ina[S(c)] \/ (more # <<>> /\ more[c])],
        cp |-> [c \in 1..n |-> g.cp[S(c)]], pw |-> IF src = 0 THEN None ELSE [p |-> src, fine |-> TRUE, lo |-> lo, hi |-> hi, r |-> Vec(LAMBDA a : Ones(x[a]))]]

\* w[a][c]: the weights of the fine slices in coarse slice c of axis a; every slice weighs T together
Fine(w) == Vec(LAMBDA a : Sum([c \in DOMAIN w[a] |-> Len(w[a][c])], 1, Len(w[a])))
RECURSIVE Table(_, _)
Table(q, c) == IF c > Len(q) THEN <<>> ELSE [i \in 1..Len(q[c]) |-> <<c - 1, Sum(q[c], 1, i - 1), Sum(q[c], 1, i)>>] \o Table(q, c + 1)
Mix(cell, T, u) == LET W(f, b) == IF b = 1 THEN f ELSE T - f
                       K(n) == LET b == Bits(n) IN W(u[1], b[1]) * W(u[2], b[2]) * W(u[3], b[3])
                   IN Vec(LAMBDA d : Sum([n \in 1..8 |-> K(n) * cell[n][d]], 1, 8))
Refined(g, w, T, pw) ==
    LET x == Fine(w)  tab == Vec(LAMBDA a : Table(w[a], 1))  n == Count(x)
        Up(c) == LET t == KJI(x, c) IN Vec(LAMBDA a : tab[a][t[a] + 1])
        S(c) == LET q == Up(c) IN At(g.x, q[1][1], q[2][1], q[3][1])
    IN [x |-> x, den |-> g.den * T * T * T, def |-> [c \in 1..n |-> TRUE], pw |-> pw,
        gap |-> [k \in 1..x[1] - 1 |-> tab[1][k + 1][1] > tab[1][k][1] /\ g.gap[tab[1][k + 1][1]]], ina |-> Flags(n),
        cp |-> [c \in 1..n |-> LET q == Up(c)  cell == g.cp[S(c)] IN [m \in 1..8 |-> LET b == Bits(m) IN Mix(cell, T, Vec(LAMBDA a : q[a][2 + b[a]]))]]]

\* r[a]: the number of fine slices in each coarse slice of axis a
Coarse(g, r, pw) ==
    LET x == Vec(LAMBDA a : Len(r[a]))  n == Count(x)
        End(a, c, b) == Sum(r[a], 1, c + b) - b
    IN [x |-> x, den |-> g.den, def |-> [c \in 1..n |-> TRUE], gap |-> Flags(x[1] - 1), ina |-> Flags(n), pw |-> pw,
        cp |-> [c \in 1..n |-> LET t == KJI(x, c) IN [m \in 1..8 |-> LET b == Bits(m) IN g.cp[At(g.x, End(1, t[1], b[1]), End(2, t[2], b[2]), End(3, t[3], b[3]))][m]]]]

\* z: the first and last layers of each zone, each zone starting below the one before
Zonal(g, z, lax) ==
    LET x == <<Len(z), g.x[2], g.x[3]>>  n == Count(x)
        Dead(t) == {g.ina[At(g.x, k, t[2], t[3])] : k \in z[t[1] + 1][1]..z[t[1] + 1][2]}
    IN [x |-> x, den |-> g.den, def |-> [c \in 1..n |-> TRUE], gap |-> Flags(x[1] - 1), pw |-> None,
        ina |-> [c \in 1..n |-> IF lax THEN Dead(KJI(x, c)) = {TRUE} ELSE TRUE \in Dead(KJI(x, c))],
        cp |-> [c \in 1..n |-> LET t == KJI(x, c)
                                   top == IF t[1] = 0 THEN At(g.x, z[1][1], t[2], t[3]) ELSE At(g.x, z[t[1]][2], t[2], t[3])
                               IN [m \in 1..8 |-> IF m > 4 THEN g.cp[At(g.x, z[t[1] + 1][2], t[2], t[3])][m]
                                                  ELSE g.cp[top][IF t[1] = 0 THEN m ELSE m + 4]]]]
\* the zone of each layer, -9 for none: the common zone of its active cells, or the commonest (the lowest such)
Values(g, q, k) == {q[At(g.x, k, j, i)] : <<j, i>> \in {p \in (0..g.x[2] - 1) \X (0..g.x[3] - 1) : ~ g.ina[At(g.x, k, p[1], p[2])]}}
Often(g, q, k, z) == Cardinality({p \in (0..g.x[2] - 1) \X (0..g.x[3] - 1) : ~ g.ina[At(g.x, k, p[1], p[2])] /\ q[At(g.x, k, p[1], p[2])] = z})
Most(g, q, k) == LET V == Values(g, q, k)  T == {z \in V : \A y \in V : Often(g, q, k, y) <= Often(g, q, k, z)} IN CHOOSE z \in T : \A y \in T : z <= y
Layer(g, q, dom, k) == IF Values(g, q, k) = {} THEN -9 ELSE IF dom THEN Most(g, q, k) ELSE CHOOSE z \in Values(g, q, k) : TRUE
Mixed(g, q, dom, lo, hi) == ~ dom /\ \E k \in lo..hi : Cardinality(Values(g, q, k)) > 1
ByLayer(g, q, dom, lo, hi) == [k \in 1..hi - lo + 1 |-> Layer(g, q, dom, lo + k - 1)]
Zones(b) == Seqs(b) \ {-9}
First(b, z) == CHOOSE k \in DOMAIN b : b[k] = z /\ \A j \in 1..k - 1 : b[j] # z
Last(b, z) == CHOOSE k \in DOMAIN b : b[k] = z /\ \A j \in k + 1..Len(b) : b[j] # z
Split(b) == \E z \in Zones(b) : \E k \in First(b, z)..Last(b, z) : b[k] \notin {z, -9}
RECURSIVE Order(_, _)
Order(b, Z) == IF Z = {} THEN <<>> ELSE LET z == CHOOSE z \in Z : \A y \in Z : First(b, z) <= First(b, y) IN <<z>> \o Order(b, Z \ {z})
\* layers of no zone go to the zone below, unless inside one
Ranges(b, lo) == LET o == Order(b, Zones(b)) IN [n \in DOMAIN o |-> <<lo + (IF n = 1 THEN First(b, o[1]) - 1 ELSE Last(b, o[n - 1])), lo + Last(b, o[n]) - 1, o[n]>>]

\* mending of faults: a point is the mean of the columns around its pillar
Mended(g) ==
    LET n == Count(g.x)
        Cols(pj, pi) == {p \in {pj - 1, pj} \X {pi - 1, pi} : p[1] >= 0 /\ p[1] < g.x[2] /\ p[2] >= 0 /\ p[2] < g.x[3]}
        RECURSIVE Tot(_, _, _, _, _, _)
        Tot(S, k, kp, pj, pi, d) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN g.cp[At(g.x, k, p[1], p[2])][Crn(kp, pj - p[1], pi - p[2])][d] + Tot(S \ {p}, k, kp, pj, pi, d)
    IN [g EXCEPT !.den = g.den * 4, !.pw = None,
                 !.cp = [c \in 1..n |-> LET t == KJI(g.x, c) IN [m \in 1..8 |-> LET b == Bits(m)  C == Cols(t[2] + b[2], t[3] + b[3])
                          IN Vec(LAMBDA d : (4 \div Cardinality(C)) * Tot(C, t[1], b[1], t[2] + b[2], t[3] + b[3], d))]]]
Between(a, b, n, d) ==
    [a EXCEPT !.den = d * a.den * b.den, !.pw = None, !.ina = [c \in DOMAIN a.ina |-> a.ina[c] /\ b.ina[c]],
              !.cp = [c \in DOMAIN a.cp |-> [m \in 1..8 |-> Vec(LAMBDA q : (d - n) * b.den * a.cp[c][m][q] + n * a.den * b.cp[c][m][q])]]]

DerivedInit == [g |-> <<>>]
Window(s, e) ==   \* the parent window of a refined or coarsened grid
    LET g == s.g[e.g]  fine == e.op = "refine"
        x == IF fine THEN g.x ELSE g.x
        r == IF fine THEN Vec(LAMBDA a : [c \in DOMAIN e.w[a] |-> Len(e.w[a][c])]) ELSE e.w
        skip == e.parent = "grandparent" /\ g.pw.p > 0
    IN IF e.parent = "none" THEN None
       \* without any change of extent a grid counts as refined
       ELSE [p |-> IF skip THEN g.pw.p ELSE e.g, fine |-> fine \/ \A a \in 1..3 : \A c \in DOMAIN r[a] : r[a][c] = 1, r |-> r,
             lo |-> IF skip THEN g.pw.lo ELSE <<0, 0, 0>>, hi |-> IF skip THEN g.pw.hi ELSE Vec(LAMBDA a : x[a] - 1)]
Whole(g) == \A c \in DOMAIN g.def : g.def[c]
\* without a mask all cells count
Zoned(s, e) == IF e.op = "bylayer" THEN [s.g[e.g] EXCEPT !.ina = Flags(Len(@))] ELSE [s.g[e.g] EXCEPT !.ina = [c \in DOMAIN @ |-> @[c] \/ ~ s.g[e.g].def[c]]]
ZoneRanges(s, e) == LET g == Zoned(s, e) IN Ranges(ByLayer(g, e.q, e.dom, e.lo, e.hi), e.lo)
NoZones(s, e) == LET g == Zoned(s, e)  b == ByLayer(g, e.q, e.dom, e.lo, e.hi) IN Mixed(g, e.q, e.dom, e.lo, e.hi) \/ Zones(b) = {} \/ Split(b)
Refusal(s, e) ==
    CASE e.op = "box" -> \E a \in 1..3 : e.lo[a] > e.hi[a] \/ e.lo[a] < 0 \/ e.hi[a] >= s.g[e.g].x[a]
      [] e.op = "refine" -> (\E a \in 1..3 : Len(e.w[a]) # s.g[e.g].x[a]) \/ ~ Whole(s.g[e.g])
                            \/ (e.parent = "grandparent" /\ s.g[e.g].pw.p > 0 /\ \E a \in 1..3 : \E c \in DOMAIN s.g[e.g].pw.r[a] : s.g[e.g].pw.r[a][c] # 1)
      [] e.op = "coarsen" -> (\E a \in 1..3 : Sum(e.w[a], 1, Len(e.w[a])) # s.g[e.g].x[a]) \/ e.faulted \/ (\E k \in DOMAIN s.g[e.g].gap : s.g[e.g].gap[k]) \/ ~ Whole(s.g[e.g])
                            \/ (e.parent = "grandparent" /\ s.g[e.g].pw.p > 0 /\ \E a \in 1..3 : \E c \in DOMAIN s.g[e.g].pw.r[a] : s.g[e.g].pw.r[a][c] # 1)
      [] e.op = "single" -> e.lo > e.hi \/ e.lo < 0 \/ e.hi >= s.g[e.g].x[1]
      [] e.op \in {"zones", "ranges", "bylayer"} -> NoZones(s, e)
      [] e.op = "unsplit" -> ~ e.faulted
      [] e.op = "between" -> s.g[e.a].x # s.g[e.b].x \/ e.n < 0 \/ e.n > e.d
      [] OTHER -> FALSE
Result(s, e) ==
    CASE e.op = "make" -> Made(e)
      [] e.op = "box" -> Boxed(s.g[e.g], e.lo, e.hi, e.more, IF e.parent = "none" THEN 0 ELSE e.g)
      [] e.op = "refine" -> Refined(s.g[e.g], e.w, e.T, Window(s, e))
      [] e.op = "coarsen" -> Coarse(s.g[e.g], e.w, Window(s, e))
      [] e.op = "single" -> Zonal(s.g[e.g], <<<<e.lo, e.hi>>>>, e.lax)
      [] e.op = "listed" -> Zonal(s.g[e.g], e.z, e.lax)
      [] e.op = "zones" -> Zonal(s.g[e.g], ZoneRanges(s, e), e.lax)
      [] e.op = "copy" -> [s.g[e.g] EXCEPT !.pw = None]
      [] e.op = "unsplit" -> Mended(s.g[e.g])
      [] e.op = "between" -> Between(s.g[e.a], s.g[e.b], e.n, e.d)
Makes == {"make", "box", "refine", "coarsen", "single", "listed", "zones", "copy", "unsplit", "between"}
\* a grid put in a new package is not one of those that can be derived from
DerivedPost(s, e) == IF Refusal(s, e) \/ e.op \notin Makes \/ ("away" \in DOMAIN e /\ e.away) THEN s ELSE [s EXCEPT !.g = Append(@, Result(s, e))]

Raised(e) == e.res.k # "ok"
Ok(e, b) == IF Raised(e) THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
\* the inactive cells of refined and coarsened grids are not specified
Free(e) == e.op \in {"refine", "coarsen"}
Seen(e, g, o) == {x \in {"extent"} : o.x # g.x} \cup {x \in {"corners"} : o.cp # g.cp} \cup {x \in {"gaps"} : o.gap # g.gap} \cup {x \in {"defined"} : o.def # g.def}
                 \cup {x \in {"inactive"} : o.ina # [c \in DOMAIN g.ina |-> g.ina[c] \/ ~ g.def[c]]} \cup {x \in {"window"} : o.pw # g.pw} \cup {x \in {"other"} : ~ o.ok}
DerivedBad(s, e) ==
    IF Refusal(s, e) THEN {x \in {e.op \o "_accepted"} : ~ Raised(e)} ELSE
    IF Raised(e) THEN {e.op \o "_raised"} ELSE
    CASE e.op \in Makes -> LET g == Result(s, e) IN Seen(e, IF "away" \in DOMAIN e /\ e.away THEN [g EXCEPT !.pw = e.obs.pw] ELSE g, e.obs)
      [] e.op = "look" -> Seen(e, s.g[e.g], e.obs)
      [] e.op = "ranges" -> Ok(e, e.obs = ZoneRanges(s, e))
      [] e.op = "bylayer" -> LET q == ZoneRanges(s, e)
                                 w == [k \in 1..s.g[e.g].x[1] |-> IF \E n \in DOMAIN q : q[n][1] <= k - 1 /\ k - 1 <= q[n][2] THEN q[CHOOSE n \in DOMAIN q : q[n][1] <= k - 1 /\ k - 1 <= q[n][2]][3] ELSE e.null]
                             IN Ok(e, e.obs = [v |-> w, stored |-> w, of |-> e.g, el |-> "layers"])
      [] OTHER -> {}
=============================================================================
