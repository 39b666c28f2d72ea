------------------------------- MODULE Lines -------------------------------
(* Polylines and sets of polylines: what they are made of, how they are    *)
(* written and read back, and what can be asked of them.  Coordinates are  *)
(* integers; answers that are fractions come multiplied by a denominator.  *)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Rest(a, b) == a % b
Sub(a, b) == <<b[1] - a[1], b[2] - a[2], IF Len(a) = 3 /\ Len(b) = 3 THEN b[3] - a[3] ELSE 0>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Turn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* ---- segments -----------------------------------------------------------
NSeg(pl) == IF pl.c THEN Len(pl.p) ELSE Len(pl.p) - 1
Tail1(pl, s) == pl.p[s]
Head1(pl, s) == pl.p[IF s = Len(pl.p) THEN 1 ELSE s + 1]
Vec(pl, s) == Sub(Tail1(pl, s), Head1(pl, s))
Sq(v, flat) == v[1] * v[1] + v[2] * v[2] + (IF flat THEN 0 ELSE v[3] * v[3])
Root(d) == CHOOSE n \in 0..60 : n * n = d
HasRoot(d) == \E n \in 0..60 : n * n = d
SegLen(pl, s, flat) == Root(Sq(Vec(pl, s), flat))
Neat(pl, flat) == \A s \in 1..NSeg(pl) : HasRoot(Sq(Vec(pl, s), flat))
Length(pl, flat) == SumTo([s \in 1..NSeg(pl) |-> SegLen(pl, s, flat)], NSeg(pl))
Before(pl, s, flat) == SumTo([i \in 1..NSeg(pl) |-> SegLen(pl, i, flat)], s - 1)

OnSeg(a, b, q) ==
  /\ Turn(a, b, q) = 0
  /\ Min2(a[1], b[1]) <= q[1] /\ q[1] <= Max2(a[1], b[1])
  /\ Min2(a[2], b[2]) <= q[2] /\ q[2] <= Max2(a[2], b[2])

\* ---- polygons -----------------------------------------------------------
OnEdge(pl, q) == \E s \in 1..NSeg(pl) : OnSeg(Tail1(pl, s), Head1(pl, s), q)
Ups(pl, q) == {s \in 1..NSeg(pl) : Tail1(pl, s)[2] <= q[2] /\ q[2] < Head1(pl, s)[2] /\ Turn(Tail1(pl, s), Head1(pl, s), q) > 0}
Downs(pl, q) == {s \in 1..NSeg(pl) : Head1(pl, s)[2] <= q[2] /\ q[2] < Tail1(pl, s)[2] /\ Turn(Tail1(pl, s), Head1(pl, s), q) < 0}
Crossings(pl, q) == Cardinality(Ups(pl, q)) + Cardinality(Downs(pl, q))
Winds(pl, q) == Cardinality(Ups(pl, q)) - Cardinality(Downs(pl, q))
Inside(pl, q, mode) == IF mode = "winding" THEN Winds(pl, q) # 0 ELSE Rest(Crossings(pl, q), 2) = 1

Shoe(pl) == SumTo([s \in 1..Len(pl.p) |-> Cross(Tail1(pl, s), Head1(pl, s))], Len(pl.p))

Touch(a, b, c, d) ==        \* two segments have a point in common
  LET t1 == Turn(a, b, c)
      t2 == Turn(a, b, d)
      t3 == Turn(c, d, a)
      t4 == Turn(c, d, b)
  IN \/ ((t1 > 0 /\ t2 < 0) \/ (t1 < 0 /\ t2 > 0)) /\ ((t3 > 0 /\ t4 < 0) \/ (t3 < 0 /\ t4 > 0))
     \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
Proper(a, b, c, d) ==
  LET t1 == Turn(a, b, c)
      t2 == Turn(a, b, d)
      t3 == Turn(c, d, a)
      t4 == Turn(c, d, b)
  IN ((t1 > 0 /\ t2 < 0) \/ (t1 < 0 /\ t2 > 0)) /\ ((t3 > 0 /\ t4 < 0) \/ (t3 < 0 /\ t4 > 0))

Neighbours(pl, s, u) == s = u \/ s = u + 1 \/ u = s + 1 \/ (pl.c /\ {s, u} = {1, NSeg(pl)})
Simple(pl) ==
  /\ \A i, j \in 1..Len(pl.p) : i # j => <<pl.p[i][1], pl.p[i][2]>> # <<pl.p[j][1], pl.p[j][2]>>
  /\ \A s, u \in 1..NSeg(pl) : s < u /\ ~Neighbours(pl, s, u) => ~Touch(Tail1(pl, s), Head1(pl, s), Tail1(pl, u), Head1(pl, u))
  /\ \A s \in 1..NSeg(pl) : \A u \in 1..NSeg(pl) : s # u /\ Neighbours(pl, s, u) /\ NSeg(pl) > 2 =>
        ~(\E q \in {Tail1(pl, u), Head1(pl, u)} : q # Tail1(pl, s) /\ q # Head1(pl, s) /\ OnSeg(Tail1(pl, s), Head1(pl, s), q))

Bend(pl, i) == Turn(pl.p[IF i = 1 THEN Len(pl.p) ELSE i - 1], pl.p[i], pl.p[IF i = Len(pl.p) THEN 1 ELSE i + 1])
Bends(pl) == {IF Bend(pl, i) > 0 THEN 1 ELSE IF Bend(pl, i) < 0 THEN -1 ELSE 0 : i \in 1..Len(pl.p)}
NotConvex(pl) == ~pl.c \/ Len(pl.p) < 3 \/ {-1, 1} \subseteq Bends(pl) \/ Bends(pl) = {0}
Convex(pl) == ~NotConvex(pl) /\ Simple(pl)

\* convex hull of the vertices: those that are not between or within others
Extreme(pl, i) ==
  LET q == pl.p[i]
  IN ~\E a, b, c \in RangeOf(pl.p) :
        /\ a # q /\ b # q /\ c # q
        /\ (OnSeg(a, b, q) \/ (Turn(a, b, c) > 0 /\ Turn(a, b, q) >= 0 /\ Turn(b, c, q) >= 0 /\ Turn(c, a, q) >= 0))

\* ---- files --------------------------------------------------------------
Long(ls) == SelectSeq(ls, LAMBDA l : Len(l) > 1)
FromIrap(l) ==
  LET same == l[1] = l[Len(l)]
  IN [p |-> IF same /\ Len(l) > 2 THEN SubSeq(l, 1, Len(l) - 1) ELSE l, c |-> same]
Ring(pl) == IF pl.c THEN Append(pl.p, pl.p[1]) ELSE pl.p
FileOf(pls, fmt) == [i \in 1..Len(pls) |-> IF fmt = "irap" THEN Ring(pls[i]) ELSE pls[i].p]
Read(ls, fmt) == LET w == Long(ls) IN [i \in 1..Len(w) |-> IF fmt = "irap" THEN FromIrap(w[i]) ELSE [p |-> w[i], c |-> FALSE]]

\* ---- fractions ----------------------------------------------------------
Tol(o, e, t) == Abs(o - e) <= t
AtFraction(pl, o, a, b, den, flat) ==       \* o / den is the point at a / b of the length
  LET T == a * Length(pl, flat)
      Fits(s) ==
        LET d == SegLen(pl, s, flat)
            from == b * Before(pl, s, flat)
        IN \/ d > 0 /\ from <= T /\ T <= from + b * d
              /\ \A k \in 1..3 : o[k] * b * d = den * (Tail1(pl, s)[k] * b * d + (T - from) * Vec(pl, s)[k])
           \/ d = 0 /\ from = T /\ \A k \in 1..2 : o[k] = den * Tail1(pl, s)[k]      \* upright: any of its points
  IN \E s \in 1..NSeg(pl) : Fits(s)

Centre(pl) == [k \in 1..3 |-> SumTo([s \in 1..NSeg(pl) |-> (Tail1(pl, s)[k] + Head1(pl, s)[k]) * SegLen(pl, s, FALSE)], NSeg(pl))]

\* square of the distance to a segment, as a fraction
Away(a, b, q) ==
  LET v == Sub(a, b)
      w == Sub(a, q)
      s == w[1] * v[1] + w[2] * v[2]
      n == Sq(v, TRUE)
  IN IF n = 0 \/ s <= 0 THEN <<Sq(w, TRUE), 1>>
     ELSE IF s >= n THEN <<Sq(Sub(b, q), TRUE), 1>>
     ELSE <<Cross(v, w) * Cross(v, w), n>>
Leq(f, g) == f[1] * g[2] <= g[1] * f[2]
SegAway(pl, s, q) == Away(Tail1(pl, s), Head1(pl, s), q)

Snapped(a, b, q) ==         \* nearest point of segment, times the denominator
  LET v == Sub(a, b)
      w == Sub(a, q)
      s == w[1] * v[1] + w[2] * v[2]
      n == Sq(v, TRUE)
      t == IF s < 0 THEN 0 ELSE IF s > n THEN n ELSE s
  IN <<a[1] * n + t * v[1], a[2] * n + t * v[2]>>

\* crossing of the line x-y with the segment a-b: where it is, times the divisor
Div(x, y, a, b) == Cross(Sub(x, y), Sub(a, b))
NumT(x, y, a, b) == Cross(Sub(x, a), Sub(a, b))     \* along x-y
NumU(x, y, a, b) == Cross(Sub(x, a), Sub(x, y))     \* along a-b
Within(n, d, up, strict) ==
  LET m == IF d < 0 THEN -n ELSE n
      e == Abs(d)
  IN d # 0 /\ (IF strict THEN m > 0 /\ (up => m < e) ELSE m >= 0 /\ (up => m <= e))
Meets(x, y, a, b, half, strict) == Within(NumT(x, y, a, b), Div(x, y, a, b), ~half, strict) /\ Within(NumU(x, y, a, b), Div(x, y, a, b), TRUE, strict)
MeetAt(x, y, a, b, k) == x[k] * Div(x, y, a, b) + NumT(x, y, a, b) * (y[k] - x[k])

\* ---- state --------------------------------------------------------------
LInit == [flip |-> FALSE, pls |-> <<>>, sets |-> <<>>]
Same(o, pl) == o.p = pl.p /\ o.c = pl.c
SameAll(os, pls) == Len(os) = Len(pls) /\ \A i \in 1..Len(os) : Same(os[i], pls[i])

LPost(s, e) ==
  CASE e.res.k # "ok" -> s
    [] e.op = "crs" -> [s EXCEPT !.flip = e.flip]
    [] e.op = "new" -> [s EXCEPT !.pls = Append(@, [p |-> e.p, c |-> e.closed])]
    [] e.op = "trim" -> [s EXCEPT !.pls = Append(@, [p |-> [i \in 1..(e.to - e.from + 2) |->
                              IF i = 1 /\ e.start # <<>> THEN e.start
                              ELSE IF i = e.to - e.from + 2 /\ e.end # <<>> THEN e.end
                              ELSE s.pls[e.of].p[e.from + i]], c |-> FALSE])]
    [] e.op = "set" -> [s EXCEPT !.sets = Append(@, [i \in 1..Len(e.of) |-> s.pls[e.of[i]]])]
    [] e.op = "import" -> [s EXCEPT !.sets = Append(@, Read(e.lines, e.fmt))]
    [] OTHER -> s

LAsk(s, e) ==
  LET pl == s.pls[e.of]
      o == e.obs
  IN CASE e.q = "in" ->
            \A i \in 1..Len(e.at) : OnEdge(pl, e.at[i]) \/ o[i] = Inside(pl, e.at[i], e.mode)
       [] e.q = "lengths" ->
            /\ o.n = NSeg(pl) /\ o.full = Length(pl, e.flat)
            /\ \A i \in 1..NSeg(pl) : o.seg[i] = SegLen(pl, i, e.flat)
       [] e.q = "middles" ->
            \A i \in 1..NSeg(pl) : \A k \in 1..3 : o[i][k] = Tail1(pl, i)[k] + Head1(pl, i)[k]
       [] e.q = "point" -> AtFraction(pl, o, e.a, e.b, e.den, e.flat)
       [] e.q = "spaced" ->
            /\ Len(o) = e.n
            /\ \A i \in 1..e.n : AtFraction(pl, o[i], i - 1, IF pl.c THEN e.n ELSE e.n - 1, e.den, e.flat)
       [] e.q = "centre" -> \A k \in 1..3 : o[k] = Centre(pl)[k] /\ e.den = 2 * Length(pl, FALSE)
       [] e.q = "scaled" ->
            /\ o.c = pl.c /\ Len(o.p) = Len(pl.p) /\ e.den = 2 * Length(pl, FALSE)
            /\ \A i \in 1..Len(pl.p) : \A k \in 1..3 : o.p[i][k] = e.f * (e.den * pl.p[i][k] - Centre(pl)[k]) + Centre(pl)[k]
       [] e.q = "closest" ->
            LET g == o.seg + 1
                d == SegAway(pl, g, e.at)
            IN /\ g \in 1..NSeg(pl)
               /\ \A i \in 1..NSeg(pl) : Leq(d, SegAway(pl, i, e.at))
               /\ o.d2 * d[2] = d[1] * e.den
       [] e.q = "snap" ->
            LET w == Snapped(Tail1(pl, e.seg + 1), Head1(pl, e.seg + 1), e.at)
            IN o[1] = w[1] /\ o[2] = w[2]
       [] e.q = "onseg" ->      \* at a / b of the segment in xy, the point in xyz
            \A k \in 1..3 : o[k] = Tail1(pl, e.seg + 1)[k] * e.b + e.a * Vec(pl, e.seg + 1)[k]
       [] e.q = "first" ->
            LET x == e.at[1]
                y == e.at[2]
                M(i, strict) == Meets(x, y, Tail1(pl, i), Head1(pl, i), e.half, strict)
            IN IF o.seg = -1 THEN \A i \in 1..NSeg(pl) : ~M(i, TRUE)
               ELSE LET g == o.seg + 1
                        D == Div(x, y, Tail1(pl, g), Head1(pl, g))
                    IN /\ M(g, FALSE) /\ \A i \in 1..(g - 1) : ~M(i, TRUE)
                       /\ e.den = D
                       /\ \A k \in 1..2 : o.p[k] = MeetAt(x, y, Tail1(pl, g), Head1(pl, g), k)
       [] e.q = "crossings" ->
            LET w == s.pls[e.with]
                Hit(i, j) == Proper(Tail1(pl, i), Head1(pl, i), Tail1(w, j), Head1(w, j))
                Pairs == {<<i, j>> \in (1..NSeg(pl)) \X (1..NSeg(w)) : Hit(i, j)}
                Loose == \E i \in 1..NSeg(pl) : \E j \in 1..NSeg(w) : ~Hit(i, j) /\ Touch(Tail1(pl, i), Head1(pl, i), Tail1(w, j), Head1(w, j))
                Fits(x, h) ==
                  LET a == Tail1(pl, h[1])
                      b == Head1(pl, h[1])
                      c == Tail1(w, h[2])
                      d == Head1(w, h[2])
                      D == Div(a, b, c, d)
                  IN \A k \in 1..2 : Abs(x[k] * D - 1000 * MeetAt(a, b, c, d, k)) <= Abs(D)
            IN /\ \A h \in Pairs : \E i \in 1..Len(o) : Fits(o[i], h)
               /\ Loose \/ \A i \in 1..Len(o) : \E h \in Pairs : Fits(o[i], h)
               /\ Len(o) <= NSeg(pl) * NSeg(w)
       [] e.q = "convex" -> (Convex(pl) => o) /\ (NotConvex(pl) => ~o)
       [] e.q = "clockwise" -> Simple(pl) /\ Shoe(pl) # 0 => (o = ((Shoe(pl) < 0) # s.flip))
       [] e.q = "normal" ->
            LET v == Vec(pl, e.seg + 1)
                g == IF Shoe(pl) > 0 THEN 1 ELSE -1
            IN Simple(pl) /\ Shoe(pl) # 0 => (Tol(o[1], g * 1000 * v[2], 1) /\ Tol(o[2], -g * 1000 * v[1], 1) /\ o[3] = 0)
       [] e.q = "area" ->
            IF Convex(pl) THEN o = 1000 * Abs(Shoe(pl))
            ELSE Simple(pl) =>
                   LET X == {q[1] : q \in RangeOf(pl.p)}
                       Y == {q[2] : q \in RangeOf(pl.p)}
                       B == \E a, b \in X : \E c, d \in Y :
                              /\ \A x \in X : a <= x /\ x <= b
                              /\ \A y \in Y : c <= y /\ y <= d
                              /\ Tol(o, 1000 * Abs(Shoe(pl)), 200 * (b - a) * (d - c))
                   IN B
       [] e.q = "normalised" ->     \* there, and back again
            Convex(pl) /\ ~OnEdge(pl, e.at) /\ Inside(pl, e.at, "crossing") =>
              /\ o.range
              /\ Tol(o.p[1], 1000 * e.at[1], 1) /\ Tol(o.p[2], 1000 * e.at[2], 1)
       [] e.q = "splined" ->
            /\ o.c = pl.c
            /\ Len(o.at) = Len(pl.p)
            /\ \A i \in 1..Len(pl.p) : o.at[i] > 0
            /\ o.at[1] = 1
            /\ \A i \in 2..Len(pl.p) : o.at[i] - o.at[i - 1] >= e.least
            /\ IF pl.c THEN o.n + 1 - o.at[Len(pl.p)] >= e.least ELSE o.n = o.at[Len(pl.p)]
       [] e.q = "hull" ->
            LET H == {pl.p[i] : i \in {j \in 1..Len(pl.p) : Extreme(pl, j)}}
            IN Simple(pl) /\ Shoe(pl) # 0 =>
                 /\ o.c /\ H \subseteq RangeOf(o.p) /\ RangeOf(o.p) \subseteq RangeOf(pl.p)
                 /\ Convex([p |-> o.p, c |-> TRUE])
       [] e.q = "which" ->      \* first closed polyline of the set that holds the point
            LET w == s.sets[e.of]
                In(i, x) == w[i].c /\ Inside(w[i], x, e.mode)
            IN Len(o) = Len(e.at) /\ \A h \in 1..Len(o) :
                 (\A i \in 1..Len(w) : ~OnEdge(w[i], e.at[h])) =>
                   IF o[h] = -1 THEN \A i \in 1..Len(w) : ~In(i, e.at[h])
                   ELSE o[h] + 1 \in 1..Len(w) /\ In(o[h] + 1, e.at[h]) /\ \A i \in 1..o[h] : ~In(i, e.at[h])
       [] OTHER -> FALSE

LBad(s, e) ==
  LET n == LPost(s, e)
  IN IF e.res.k # "ok" THEN {"operation fails"}
     ELSE CASE e.op = "crs" -> {}
            [] e.op \in {"new", "trim"} -> IF Same(e.obs, n.pls[Len(n.pls)]) THEN {} ELSE {"points of polyline"}
            [] e.op = "load" ->
                 (IF Same(e.obs, s.pls[e.of]) THEN {} ELSE {"points of polyline read back"})
                 \cup (IF e.obs.title = e.title /\ \A i \in 1..Len(e.em) : e.em[i] \in RangeOf(e.obs.em) THEN {} ELSE {"title or extra metadata read back"})
            [] e.op = "set" -> IF SameAll(e.obs, n.sets[Len(n.sets)]) THEN {} ELSE {"polylines of set"}
            [] e.op = "loadset" ->
                 (IF SameAll(e.obs.polys, s.sets[e.of]) THEN {} ELSE {"polylines of set read back"})
                 \cup (IF e.obs.title = e.title THEN {} ELSE {"title of set read back"})
            [] e.op = "export" -> IF SameAll(e.obs, Read(FileOf(s.sets[e.of], e.fmt), e.fmt)) THEN {} ELSE {"polylines written to and read from file"}
            [] e.op = "import" -> IF SameAll(e.obs, n.sets[Len(n.sets)]) THEN {} ELSE {"polylines read from file"}
            [] e.op = "ask" -> IF LAsk(s, e) THEN {} ELSE {e.q}
            [] OTHER -> {"unknown event"}
=============================================================================
