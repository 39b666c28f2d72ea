------------------------------ MODULE Delaunay ------------------------------
(***************************************************************************)
(* Triangulation of sets of points in the xy plane, and what is derived    *)
(* from a triangulation: its edges and rims, its direction, the Voronoi    *)
(* cells of its points, fans of polygons, and surfaces made from sets of   *)
(* points with or without a flange.                                        *)
(*                                                                         *)
(* The state holds the points (whole numbers, three coordinates) and the   *)
(* triangles presently looked at (numbers of points, from one).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
Tol(a, b, d) == Abs(a - b) <= d

Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])

(* Positive when d is inside the circle through a, b and c (anticlockwise) *)
InCircle(a, b, c, d) ==
  LET ax == a[1] - d[1]  ay == a[2] - d[2]  az == ax * ax + ay * ay
      bx == b[1] - d[1]  by == b[2] - d[2]  bz == bx * bx + by * by
      cx == c[1] - d[1]  cy == c[2] - d[2]  cz == cx * cx + cy * cy
  IN ax * (by * cz - bz * cy) - ay * (bx * cz - bz * cx) + az * (bx * cy - by * cx)

RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE SumTo(q, n - 1) + q[n]
Sum(F(_), n) == SumTo([i \in 1..n |-> F(i)], n)

Wrap(i, n) == IF i > n THEN i - n ELSE i
Shoe(q) == LET n == Len(q)
               F(i) == q[i][1] * q[Wrap(i + 1, n)][2] - q[Wrap(i + 1, n)][1] * q[i][2]
           IN Sum(F, n)

(* Twice the area of the convex hull of points, without making the hull:   *)
(* the directed edges with every point on or to the left, none beyond      *)
(* either end on the same line                                             *)
HullEdges(P) ==
  {e \in P \X P :
     /\ <<e[1][1], e[1][2]>> # <<e[2][1], e[2][2]>>
     /\ \A x \in P : Turn(e[1], e[2], x) >= 0
     /\ \A x \in P : Turn(e[1], e[2], x) = 0 =>
          /\ (x[1] - e[1][1]) * (e[2][1] - e[1][1]) + (x[2] - e[1][2]) * (e[2][2] - e[1][2]) >= 0
          /\ (x[1] - e[2][1]) * (e[1][1] - e[2][1]) + (x[2] - e[2][2]) * (e[1][2] - e[2][2]) >= 0}

RECURSIVE SumLast(_)
SumLast(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumLast(S \ {x})

Flat(P) == {<<x[1], x[2]>> : x \in P}
Cross(e) == e[1][1] * e[2][2] - e[2][1] * e[1][2]
HullArea(P) == SumLast({<<e, Cross(e)>> : e \in HullEdges(Flat(P))})

Corner(p, w, k) == p[w[k]]
Area(p, w) == Abs(Turn(p[w[1]], p[w[2]], p[w[3]]))
TotalArea(p, t) == LET F(i) == Area(p, t[i]) IN Sum(F, Len(t))

WellFormed(p, t) ==
  \A i \in 1..Len(t) :
    /\ Len(t[i]) = 3
    /\ \A k \in 1..3 : t[i][k] \in 1..Len(p)
    /\ Area(p, t[i]) > 0

Empty(p, w) ==
  LET a == p[w[1]]  b == p[w[2]]  c == p[w[3]]
  IN IF Turn(a, b, c) > 0 THEN \A i \in 1..Len(p) : InCircle(a, b, c, p[i]) <= 0
     ELSE \A i \in 1..Len(p) : InCircle(a, c, b, p[i]) <= 0

EdgesOf(w) == {{w[1], w[2]}, {w[2], w[3]}, {w[3], w[1]}}
Edges(t) == UNION {EdgesOf(t[i]) : i \in 1..Len(t)}
Uses(t, e) == {i \in 1..Len(t) : e \subseteq RangeOf(t[i])}
Rim(t) == {e \in Edges(t) : Cardinality(Uses(t, e)) = 1}
Inner(t) == {e \in Edges(t) : Cardinality(Uses(t, e)) = 2}

(* A triangulation of the points: no circle holds a point, no overlap, all *)
(* of the hull covered (the simple algorithm may leave slight concavities) *)
Covers(p, t, alg) ==
  LET A == TotalArea(p, t)
      H == HullArea(RangeOf(p))
  IN IF alg = "simple" THEN A <= H ELSE A = H

Delaunay(p, t, alg) ==
  /\ WellFormed(p, t)
  /\ Covers(p, t, alg)
  /\ \A e \in Edges(t) : Cardinality(Uses(t, e)) <= 2
  /\ \A i \in 1..Len(t) : Empty(p, t[i])
  /\ \A i \in 1..Len(t), j \in 1..Len(t) : i # j => RangeOf(t[i]) # RangeOf(t[j])

(* Points of the boundary in clockwise order *)
Boundary(p, t, b) ==
  LET n == Len(b)
      q == [i \in 1..n |-> p[b[i]]]
  IN /\ {{b[i], b[Wrap(i + 1, n)]} : i \in 1..n} = Rim(t)
     /\ n = Cardinality(Rim(t))
     /\ Shoe(q) = -TotalArea(p, t)

(* Nearest of the points, if there is only one *)
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Nearest(p, x) == {i \in 1..Len(p) : \A j \in 1..Len(p) : Dist(p[i], x) <= Dist(p[j], x)}

(* Each list of edges is a closed walk through the list of points, and all *)
(* the edges given are used once                                           *)
Rims(g, o) ==
  LET k == Len(o.e)
      Seg(i, j) == {o.p[i][j], o.p[i][Wrap(j + 1, Len(o.p[i]))]}
      N(i) == Len(o.e[i])
  IN /\ Len(o.p) = k
     /\ \A i \in 1..k :
          /\ Len(o.p[i]) = N(i)
          /\ \A j \in 1..N(i) : o.e[i][j] \in 1..Len(g) /\ RangeOf(g[o.e[i][j]]) = Seg(i, j)
          /\ Cardinality(RangeOf(o.p[i])) = N(i) \/ \E x \in UNION {RangeOf(y) : y \in RangeOf(g)} : Cardinality({y \in RangeOf(g) : x \in RangeOf(y)}) > 2
     /\ UNION {RangeOf(o.e[i]) : i \in 1..k} = 1..Len(g)
     /\ Sum(N, k) = Len(g)

Sorted(w) == \A i \in 2..Len(w) : w[i - 1][1] < w[i][1] \/ (w[i - 1][1] = w[i][1] /\ w[i - 1][2] < w[i][2])
Rising(w) == \A i \in 2..Len(w) : w[i - 1] < w[i]

EdgeList(o, E) == {RangeOf(o[i]) : i \in 1..Len(o)} = E /\ Len(o) = Cardinality(E) /\ \A i \in 1..Len(o) : Len(o[i]) = 2 /\ o[i][1] < o[i][2]

Fan(n, v) ==     \* triangles of polygons about their centres
  LET k == Len(v)
      Before(i) == LET G(j) == Len(v[j]) IN Sum(G, i - 1)
      M == LET H(j) == Len(v[j]) IN Sum(H, k)
  IN [m \in 1..M |->
       LET i == CHOOSE i \in 1..k : Before(i) < m /\ m <= Before(i) + Len(v[i])
           j == m - Before(i)
       IN <<n + i, v[i][j], v[i][Wrap(j + 1, Len(v[i]))]>>]

Vec(a, b) == <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>
CrossV(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]

(* x thousandths, squared, is the whole number d *)
NearRoot(x, d) == LET y == x \div 10 IN Tol(y * y, 10000 * d, 2 * y + 2)

DInit == [p |-> <<>>, t |-> <<>>, dt |-> FALSE]

DPost(s, e) ==
  CASE e.op = "points" -> [s EXCEPT !.p = e.p, !.t = <<>>, !.dt = FALSE]
    [] e.op = "dt" -> [s EXCEPT !.t = e.obs.t, !.dt = TRUE]
    [] e.op = "tris" -> [s EXCEPT !.t = e.t, !.dt = FALSE]
    [] OTHER -> s

(* Surface made from the points: ext points of the flange follow the given *)
(* points                                                                  *)
Flange(s, e, o) ==
  LET n == Len(s.p)
      Ext(w) == \E k \in 1..3 : w[k] > n
  IN /\ o.same
     /\ o.n = n + (IF e.flange THEN (IF e.inner THEN 3 ELSE 1) * e.count ELSE 0)
     /\ \A i \in 1..Len(o.t) : \A k \in 1..3 : o.t[i][k] \in 1..o.n
     /\ IF e.flange THEN o.f = [i \in 1..Len(o.t) |-> Ext(o.t[i])] ELSE o.f = <<>>
     /\ e.way = "xy" /\ ~e.flange => Delaunay(s.p, o.t, "scipy")
     /\ e.flange /\ e.way = "xy" => \A i \in 1..n : \E j \in 1..Len(o.t) : i \in RangeOf(o.t[j])
     /\ e.cw /\ e.way = "xy" => \A i \in 1..Len(o.t) : Ext(o.t[i]) \/ Turn(s.p[o.t[i][1]], s.p[o.t[i][2]], s.p[o.t[i][3]]) < 0
     /\ e.cw /\ e.way = "plane" /\ e.even =>
          \A i \in 1..Len(o.t) :
            \/ Ext(o.t[i])
            \/ LET a == s.p[o.t[i][1]]
                   V == CrossV(Vec(a, s.p[o.t[i][2]]), Vec(a, s.p[o.t[i][3]]))
               IN Dot(V, o.normal) <= 10 * (Abs(V[1]) + Abs(V[2]) + Abs(V[3]))

DAsk(s, e) ==
  LET o == e.obs
      p == s.p
      t == s.t
  IN CASE e.q = "edges" ->
            /\ EdgeList(o.e, Edges(t)) /\ Sorted(o.e)
            /\ o.n = [i \in 1..Len(o.e) |-> Cardinality(Uses(t, RangeOf(o.e[i])))]
       [] e.q = "rim" -> EdgeList(o, Rim(t))
       [] e.q = "inner" -> EdgeList(o, Inner(t))
       [] e.q = "rims" -> EdgeList(o.g, Rim(t)) /\ Rims(o.g, o)
       [] e.q = "point" -> RangeOf(o) = {i \in 1..Len(t) : e.at \in RangeOf(t[i])} /\ Rising(o)
       [] e.q = "edge" -> RangeOf(o) = Uses(t, RangeOf(e.at)) /\ Rising(o)
       [] e.q = "each" ->
            /\ Len(o) = Len(e.at)
            /\ \A i \in 1..Len(o) :
                 LET U == Uses(t, RangeOf(e.at[i]))
                 IN /\ Len(o[i]) = 2
                    /\ RangeOf(o[i]) \ {0} = U
                    /\ Cardinality({k \in 1..2 : o[i][k] # 0}) = Cardinality(U)
                    /\ o[i][1] = 0 => o[i][2] = 0
       [] e.q = "lengths" ->
            /\ Len(o) = Len(t)
            /\ \A i \in 1..Len(t) : \A k \in 1..3 :
                 LET v == Vec(p[t[i][k]], p[t[i][Wrap(k + 1, 3)]]) IN NearRoot(o[i][k], Dot(v, v))
       [] e.q = "clockwise" ->
            /\ Len(o) = Len(t)
            /\ \A i \in 1..Len(t) :
                 /\ RangeOf(o[i]) = RangeOf(t[i])
                 /\ Turn(p[o[i][1]], p[o[i][2]], p[o[i][3]]) < 0
       [] e.q \in {"cells", "cells_far"} ->
            /\ o.n = Len(p)
            /\ \A i \in 1..Len(e.at) :
                 LET N == Nearest(p, e.at[i])
                 IN Cardinality(N) = 1 => RangeOf(o.in[i]) = N
            /\ o.clockwise
       [] e.q = "fan" ->
            /\ o.t = Fan(e.n, e.v)
            /\ o.n = e.n + Len(e.v)
            /\ o.same
            /\ o.centres
       [] e.q = "reorient" ->      \* rotation, with normal vector ending up along z
            /\ o.rotation /\ o.applied /\ o.original /\ o.up
            /\ e.planar /\ e.exact => o.level
            /\ e.dip > 0 => o.dip <= 1000 * e.dip + 1
       [] e.q = "ring" ->
            /\ o.n = (IF e.inner THEN 3 ELSE 1) * e.count
            /\ o.circle /\ o.level /\ o.apart /\ o.outside
       [] e.q = "flange" -> Flange(s, e, o)
       [] OTHER -> FALSE

DBad(s, e) ==
  IF e.res.k # "ok" THEN {IF e.op = "ask" /\ e.q = "cells_far" THEN e.q ELSE "operation fails"}
  ELSE CASE e.op \in {"points", "tris"} -> {}
         [] e.op = "dt" ->
              (IF Delaunay(s.p, e.obs.t, e.alg) THEN {} ELSE {"triangulation"})
              \cup (IF ~e.hull \/ Boundary(s.p, e.obs.t, e.obs.b) THEN {} ELSE {"boundary of triangulation"})
         [] e.op = "ask" -> IF DAsk(s, e) THEN {} ELSE {e.q}
         [] OTHER -> {"unknown event"}
=============================================================================
