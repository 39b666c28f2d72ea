------------------------------- MODULE Drill --------------------------------
(***************************************************************************)
(* Wells blocked to a grid.                                                *)
(*                                                                         *)
(* The grid is a lattice: columns between the planes x = xs and y = ys,     *)
(* flat layers between the depths zs, each column moved down by its throw   *)
(* (so neighbouring columns may be faulted); some cells are inactive.       *)
(* A well is a list of knots with measured depths.  Coordinates of the      *)
(* knots are kept in halves, measured depths and locations in thousandths.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

DInit == [g |-> <<>>, w |-> <<>>]

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN -x ELSE x
Tol(a, b, d) == Abs(a - b) <= d
Rest(a, b) == a % b
Div(a, b) == a \div b
Has(o, n) == n \in DOMAIN o
Put(o, n, r) == (n :> r) @@ o
LastOf(q) == q[Len(q)]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

---------------------------------------------------------------------------
(* The grid *)

Nk(g) == Len(g.zs) - 1
Nj(g) == Len(g.ys) - 1
Ni(g) == Len(g.xs) - 1
Cells(g) == {<<k, j, i>> : k \in 0..(Nk(g) - 1), j \in 0..(Nj(g) - 1), i \in 0..(Ni(g) - 1)}
Thin(g, c) == g.zs[c[1] + 1] = g.zs[c[1] + 2]
Dead(g, c) == c \in RangeOf(g.dead)
\* coordinate (in whole units, depth positive) of a face: axis 0, 1, 2 for k, j, i; side 0 or 1
Plane(g, c, a, p) ==
  CASE a = 0 -> g.zs[c[1] + 1 + p] + g.thr[c[2] + 1][c[3] + 1]
    [] a = 1 -> g.ys[c[2] + 1 + p]
    [] a = 2 -> g.xs[c[3] + 1 + p]
\* index in a location of the coordinate that an axis moves along
At(a) == 3 - a
\* the point (thousandths) lies in the cell made smaller (or larger) all round
Within(g, c, pt, d) ==
  \A a \in 0..2 : LET u == Plane(g, c, a, 0) * 1000  w == Plane(g, c, a, 1) * 1000
                  IN pt[At(a)] >= MinOf(u, w) + d /\ pt[At(a)] <= MaxOf(u, w) - d
OnFace(g, c, pt, a, p, d) == Within(g, c, pt, -d) /\ Tol(pt[At(a)], Plane(g, c, a, p) * 1000, d)

---------------------------------------------------------------------------
(* Locations along a well, straight between its knots *)

\* thousandths, dp being in halves
Along(dp, dt, T) == LET q == Div(dp * dt, T) IN 500 * q + Div(500 * (dp * dt - q * T), T)
AtMd(w, d) ==
  LET n == CHOOSE i \in 1..(Len(w.kmd) - 1) : d >= w.kmd[i] /\ d <= w.kmd[i + 1]
  IN [x \in 1..3 |-> 500 * w.kpt[n][x] + Along(w.kpt[n + 1][x] - w.kpt[n][x], d - w.kmd[n], w.kmd[n + 1] - w.kmd[n])]

---------------------------------------------------------------------------
(* Blocking *)

Number(gi, i) == Cardinality({h \in 1..i : gi[h] = 0})     \* cell number (from one) of a blocked interval
Shaped(b) ==
  IF b.md = <<>> THEN b.gi = <<>> /\ b.cells = <<>> /\ b.faces = <<>>
  ELSE /\ Len(b.md) >= 2 /\ Len(b.gi) = Len(b.md) - 1 /\ b.inc
       /\ \A i \in 1..Len(b.gi) : b.gi[i] \in {0, -1}
       /\ Len(b.cells) = Number(b.gi, Len(b.gi)) /\ Len(b.faces) = Len(b.cells)

\* one blocked interval, of cell number n
IntervalBad(g, w, b, i, n) ==
  LET c == b.cells[n]  f == b.faces[n]  p == AtMd(w, b.md[i])  q == AtMd(w, b.md[i + 1])  mid == AtMd(w, Div(b.md[i] + b.md[i + 1], 2))
  IN IF ~(c \in Cells(g) /\ ~Thin(g, c)) THEN {"no such cell"}
     ELSE (IF w.live /\ Dead(g, c) THEN {"inactive cell"} ELSE {})
          \cup (IF Within(g, c, mid, -3) THEN {} ELSE {"outside of cell"})
          \cup (IF f[1] \in 0..2 /\ f[2] \in 0..1 /\ OnFace(g, c, p, f[1], f[2], 6) THEN {} ELSE {"entry face"})
          \cup (IF \/ f[3] \in 0..2 /\ f[4] \in 0..1 /\ OnFace(g, c, q, f[3], f[4], 6)
                   \/ f[3] = -1 /\ f[4] = -1 /\ i = Len(b.gi) /\ b.md[i + 1] = LastOf(w.kmd) /\ Within(g, c, q, 0) THEN {} ELSE {"exit face"})

\* measured depths at which the well is looked at: parts of its segments and middles of intervals
Looks(w, b) ==
  UNION {{w.kmd[i] + Div((w.kmd[i + 1] - w.kmd[i]) * h, 8) : h \in 0..8} : i \in 1..(Len(w.kmd) - 1)}
  \cup {Div(b.md[i] + b.md[i + 1], 2) : i \in 1..Len(b.gi)}
Held(b, d) == {b.cells[Number(b.gi, i)] : i \in {h \in 1..Len(b.gi) : b.gi[h] = 0 /\ b.md[h] + 5 < d /\ (d < b.md[h + 1] - 5 \/ (h = Len(b.gi) /\ d = b.md[h + 1]))}}
LookRight(g, w, b, d) ==
  LET pt == AtMd(w, d)
      deep == {c \in Cells(g) : ~Thin(g, c) /\ Within(g, c, pt, 40)}
      touch == {c \in Cells(g) : ~Thin(g, c) /\ Within(g, c, pt, -40)}
  IN /\ \A c \in deep : IF w.live /\ Dead(g, c) THEN Held(b, d) = {} ELSE Held(b, d) = {c}
     /\ (touch = {}) => (Held(b, d) = {})
BlockBad(g, w, b) ==
  IF ~Shaped(b) THEN {"shape"}
  ELSE UNION {IntervalBad(g, w, b, i, Number(b.gi, i)) : i \in {h \in 1..Len(b.gi) : b.gi[h] = 0}}
       \cup (IF \A d \in Looks(w, b) : LookRight(g, w, b, d) THEN {} ELSE {"cell missed"})

---------------------------------------------------------------------------
(* Wells made from a list of cells *)

\* axis and sense of the move from one cell to another
Move(c, d) ==
  LET m == [x \in 1..3 |-> d[x] - c[x]]
      a == IF m[2] = 0 /\ m[3] = 0 THEN 1 ELSE IF Abs(m[2]) > Abs(m[3]) THEN 2 ELSE 3
  IN <<a - 1, IF m[a] >= 0 THEN 1 ELSE 0>>
InFace(q, i) == IF i = 1 THEN <<0, 0>> ELSE LET m == Move(q[i - 1], q[i]) IN <<m[1], 1 - m[2]>>
OutFace(q, i) == IF i = Len(q) THEN LET f == InFace(q, i) IN <<f[1], 1 - f[2]>> ELSE Move(q[i], q[i + 1])
\* centre of a face, in halves, depth positive
Centre(g, c, f) ==
  [x \in 1..3 |-> LET a == At(x) IN IF f[1] = a THEN 2 * Plane(g, c, a, f[2]) ELSE Plane(g, c, a, 0) + Plane(g, c, a, 1)]
\* the cells taken from those offered
Taken(g, e) ==
  IF e.way = "column" THEN SelectSeq(e.cells, LAMBDA c : ~Thin(g, c) /\ ~(e.skip /\ Dead(g, c))) ELSE e.cells
\* the knots, and which of the intervals between them are blocked
RECURSIVE Knots(_, _, _)
Knots(g, q, n) ==
  LET i == IF n = 0 THEN 1 ELSE n
      into == Centre(g, q[i], InFace(q, i))
      out == Centre(g, q[i], OutFace(q, i))
      b == Knots(g, q, n - 1)
      gap == LastOf(b.p) # into
  IN IF n = 0 THEN [p |-> <<[into EXCEPT ![3] = 0]>>, gi |-> <<>>]
     ELSE [p |-> b.p \o (IF gap THEN <<into>> ELSE <<>>) \o <<out>>, gi |-> b.gi \o (IF gap THEN <<-1>> ELSE <<>>) \o <<0>>]
Toe(g, q) == IF OutFace(q, Len(q)) = <<0, 1>> /\ LastOf(q)[1] = Nk(g) - 1 THEN 1 ELSE 0

\* hundredths of a metre from thousandths of a unit
Cm(x, u) == IF u = "ft" THEN Div(x * 381, 12500) ELSE Div(x, 10)
Sq(x) == x * x
\* the length (hundredths) is that of the line between two points (halves)
LongAs(d, p, q) ==
  LET D2 == 2500 * (Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])) IN d >= 0 /\ Sq(MaxOf(d - 2, 0)) <= D2 /\ D2 <= Sq(d + 2)
Turned(g, p) == IF g.down THEN p ELSE [p EXCEPT ![3] = -@]
CellsBad(g, e, b) ==
  LET q == Taken(g, e)  n == Len(q)  K == Knots(g, q, n)  t == Toe(g, q)
  IN IF ~Shaped(b) THEN {"shape"}
     ELSE (IF b.cells = q THEN {} ELSE {"cells"})
          \cup (IF b.faces = [i \in 1..n |-> InFace(q, i) \o OutFace(q, i)] THEN {} ELSE {"faces"})
          \cup (IF b.gi = K.gi THEN {} ELSE {"intervals"})
          \cup (IF ~(Len(b.kpt) = Len(K.p) + t /\ SubSeq(b.kpt, 1, Len(K.p)) = [i \in 1..Len(K.p) |-> Turned(g, K.p[i])]) THEN {"knots"}
                ELSE (IF t = 1 => LastOf(b.kpt) = Turned(g, [LastOf(K.p) EXCEPT ![3] = @ + 20]) THEN {} ELSE {"tail"})
                     \cup (IF \A i \in 1..(Len(b.kpt) - 1) : LongAs(Cm(b.kmd[i + 1], e.uom) - Cm(b.kmd[i], e.uom), b.kpt[i], b.kpt[i + 1]) THEN {} ELSE {"knot depths"}))
          \cup (IF b.kmd[1] = 0 /\ Len(b.kmd) = Len(b.kpt) /\ SubSeq(b.kmd, 1, Len(b.md)) = b.md THEN {} ELSE {"depths"})

---------------------------------------------------------------------------
(* Questions about a blocked well *)

CellAt(b, i) == IF b.gi[i] = 0 THEN Number(b.gi, i) - 1 ELSE -1
WhereBad(w, e) ==
  LET b == w.b  o == e.obs
  IN (IF /\ Len(o.v) = Len(e.at)
         /\ \A x \in 1..Len(e.at) : o.v[x][1] = CellAt(b, e.at[x][1] + 1) /\ Tol(o.v[x][2], 250 * e.at[x][2], 1) THEN {} ELSE {"where"})
     \cup (IF o.before = <<-1, 0>> /\ o.beyond = <<-1, 1000>> THEN {} ELSE {"where beyond"})
Interval(b, n) == CHOOSE i \in 1..Len(b.gi) : b.gi[i] = 0 /\ Number(b.gi, i) = n
LeastOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MostOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MapsBad(w, e) ==
  LET b == w.b  o == e.obs  n == Len(b.cells)
  IN (IF o.map = [i \in 1..Len(b.gi) |-> CellAt(b, i)] /\ o.comp = [i \in 1..n |-> 0] /\ o.iv = [i \in 1..n |-> Interval(b, i) - 1] THEN {} ELSE {"maps"})
     \cup (IF o.ee = [i \in 1..n |-> <<b.md[Interval(b, i)], b.md[Interval(b, i) + 1]>>] THEN {} ELSE {"entry and exit"})
     \cup (IF o.kji = b.cells /\ o.kju = b.cells THEN {} ELSE {"cell indices"})
     \cup (IF o.box = <<[x \in 1..3 |-> LeastOf({b.cells[i][x] : i \in 1..n})], [x \in 1..3 |-> MostOf({b.cells[i][x] : i \in 1..n})]>> THEN {} ELSE {"box"})

Val(v, c) == v[c[1] + 1][c[2] + 1][c[3] + 1]
PropBad(g, w, e) ==
  LET q == w.b.cells IN
  IF e.obs.perm = [i \in 1..Len(q) |-> Val(g.perm, q[i])] /\ e.obs.reg = [i \in 1..Len(q) |-> Val(g.reg, q[i])] THEN {} ELSE {"properties of cells"}

(* Tables *)
Uom(w, o) == IF o.uom = "" THEN w.uom ELSE o.uom
\* four times the depth of the centre of a cell
Depth4(g, c) == 2 * (Plane(g, c, 0, 0) + Plane(g, c, 0, 1))
Kept(g, o, c) ==
  /\ (o.mink >= 0) => (c[1] >= o.mink)
  /\ (o.maxk >= 0) => (c[1] <= o.maxk)
  /\ o.hask => c[1] \in RangeOf(o.ks)
  /\ o.act => ~Dead(g, c)
  /\ (o.deep > 0) => (Depth4(g, c) <= o.deep)
  /\ o.hasr => Val(g.reg, c) \in RangeOf(o.rs)
\* length of part of an interval that is perforated (thousandths of the unit of the well)
RECURSIVE Overlap(_, _, _, _)
Overlap(P, n, lo, hi) ==
  IF n = 0 THEN 0 ELSE Overlap(P, n - 1, lo, hi) + MaxOf(0, MinOf(hi, 1000 * P[n][2]) - MaxOf(lo, 1000 * P[n][1]))
Share(o, b, i) == IF o.perf = <<>> THEN b.md[i + 1] - b.md[i] ELSE Overlap(o.perf, Len(o.perf), b.md[i], b.md[i + 1])
\* points (hundredths, depth positive, in the coordinates of the grid) at which the interval starts and ends
Ends(g, w, o, i, n) ==
  LET c == w.b.cells[n]  f == w.b.faces[n]
      fi == <<f[1], f[2]>>  fo == IF f[3] < 0 THEN <<f[1], 1 - f[2]>> ELSE <<f[3], f[4]>>
      H(p) == [x \in 1..3 |-> 50 * p[x]]
      M(p) == [x \in 1..3 |-> Div(p[x] + 5, 10)]
  IN IF o.face THEN <<H(Centre(g, c, fi)), H(Centre(g, c, fo))>> ELSE <<M(AtMd(w, w.b.md[i])), M(AtMd(w, w.b.md[i + 1]))>>
Far2(p) == Sq(p[1][1] - p[2][1]) + Sq(p[1][2] - p[2][2]) + Sq(p[1][3] - p[2][3])
\* full length is d (hundredths, within t)
FullIs(g, w, o, i, n, d, t) ==
  IF o.mode = "MD" THEN Tol(d, Cm(w.b.md[i + 1], w.uom) - Cm(w.b.md[i], w.uom), t)
  ELSE LET D2 == Far2(Ends(g, w, o, i, n)) IN Sq(MaxOf(d - t, 0)) <= D2 /\ D2 <= Sq(d + t)
\* the full length certainly reaches (or certainly does not reach) d
Reaches(g, w, o, i, n, d) ==
  IF o.mode = "MD" THEN Cm(w.b.md[i + 1], w.uom) - Cm(w.b.md[i], w.uom) > d + 5 ELSE Far2(Ends(g, w, o, i, n)) > Sq(d + 5)
Short(g, w, o, i, n, d) ==
  IF o.mode = "MD" THEN Cm(w.b.md[i + 1], w.uom) - Cm(w.b.md[i], w.uom) < d - 5 ELSE Far2(Ends(g, w, o, i, n)) < Sq(d - 5)
LeastLong(g, w, o, i, n, way) ==
  LET h == Share(o, w.b, i)  T == w.b.md[i + 1] - w.b.md[i]  d == Cm(o.minl, Uom(w, o))
  IN IF o.minl = 0 THEN way = "must" \/ way = "may"
     ELSE IF h = T THEN (IF way = "must" THEN Reaches(g, w, o, i, n, d) ELSE ~Short(g, w, o, i, n, d))
     ELSE way = "may"
RowFor(w, o, r) == {i \in 1..Len(w.b.gi) : w.b.gi[i] = 0 /\ Tol(Cm(r[5], Uom(w, o)), Cm(Div(w.b.md[i] + w.b.md[i + 1], 2), w.uom), 2)}
RowBad(g, w, o, r, i) ==
  LET b == w.b  n == Number(b.gi, i)  c == b.cells[n]  u == Uom(w, o)  one == IF o.one THEN 1 ELSE 0
      h == Share(o, b, i)  T == b.md[i + 1] - b.md[i]
      xu == IF o.uom = "" THEN "m" ELSE o.uom
      E == Ends(g, w, o, i, n)
      at == IF o.mode = "MD" THEN [x \in 1..3 |-> Div(AtMd(w, Div(b.md[i] + b.md[i + 1], 2))[x] + 5, 10)] ELSE [x \in 1..3 |-> Div(E[1][x] + E[2][x], 2)]
      off == IF o.face THEN <<0, 0>> ELSE w.off
      down == IF o.face THEN g.down ELSE w.down
  IN (IF <<r[1], r[2], r[3]>> = <<c[3] + one, c[2] + one, c[1] + one>> THEN {} ELSE {"row cell"})
     \cup (IF IF o.mode = "MD" THEN Tol(Cm(r[4], u), Cm(h, w.uom), 2)
              ELSE IF h = T THEN FullIs(g, w, o, i, n, Cm(r[4], u), 4)
              ELSE r[9] = 0 \/ FullIs(g, w, o, i, n, Div(Cm(r[4], u) * 1000, r[9]), 6 + Div(6000 + Cm(r[4], u), r[9])) THEN {} ELSE {"row length"})
     \cup (IF Tol(r[9] * Div(T, 10), 100 * h, Div(T, 10) + 2000) THEN {} ELSE {"row perforated"})
     \cup (IF Tol(Cm(r[6], xu), at[1] - 100 * off[1], 4) /\ Tol(Cm(r[7], xu), at[2] - 100 * off[2], 4) THEN {} ELSE {"row location"})
     \cup (IF Tol(Cm(r[8], xu), IF down \/ o.dd THEN at[3] ELSE -at[3], 4) THEN {} ELSE {"row depth"})
     \cup (IF o.kh => Tol(r[10], r[4] * Val(g.perm, c), Val(g.perm, c) + 2) THEN {} ELSE {"row permeability"})
RECURSIVE SumKh(_, _)
SumKh(q, n) == IF n = 0 THEN 0 ELSE q[n][10] + SumKh(q, n - 1)
TableBad(g, w, e) ==
  LET o == e.o  q == e.obs.rows  b == w.b
      at == [x \in 1..Len(q) |-> RowFor(w, o, q[x])]
      one == [x \in 1..Len(q) |-> CHOOSE i \in at[x] : TRUE]
      blocked == {i \in 1..Len(b.gi) : b.gi[i] = 0}
      Good(i, way) == LET n == Number(b.gi, i)
                      IN Kept(g, o, b.cells[n]) /\ (o.perf = <<>> \/ (IF way = "must" THEN Share(o, b, i) > 15 ELSE Share(o, b, i) > 5)) /\ LeastLong(g, w, o, i, n, way)
  IN IF \E x \in 1..Len(q) : Cardinality(at[x]) # 1 THEN {"row not of a cell"}
     ELSE (IF \A x \in 2..Len(q) : one[x] > one[x - 1] THEN {} ELSE {"order of rows"})
          \cup (IF \A i \in blocked : Good(i, "must") => i \in RangeOf(one) THEN {} ELSE {"row missing"})
          \cup (IF \A x \in 1..Len(q) : Good(one[x], "may") THEN {} ELSE {"row excluded"})
          \cup UNION {RowBad(g, w, o, q[x], one[x]) : x \in 1..Len(q)}
          \cup (IF (o.kh /\ e.way = "frame") => Tol(e.obs.skh, SumKh(q, Len(q)), 2 + Len(q)) THEN {} ELSE {"total permeability"})

(* Intervals of a frame that contribute to each cell *)
Common(a, b, c, d) == MaxOf(0, MinOf(b, d) - MaxOf(a, c))
FrameBad(w, e) ==
  LET b == w.b  F == e.mds  o == e.obs.v
      Cell(n) == LET i == Interval(b, n) IN <<b.md[i], b.md[i + 1]>>
      ShareOf(f, len, h) == Tol(f * Div(len, 10), 100 * h, Div(len, 10) + 1000)
  IN IF Len(o) # Len(b.cells) THEN {"frame"}
     ELSE UNION {LET c == Cell(n) IN
                 (IF /\ \A x, y \in 1..Len(o[n]) : x < y => o[n][x][1] < o[n][y][1]
                     /\ \A x \in 1..Len(o[n]) : o[n][x][1] \in 0..(Len(F) - 2) THEN {} ELSE {"frame intervals"})
                 \cup (IF \A f \in 1..(Len(F) - 1) : Common(c[1], c[2], F[f], F[f + 1]) > 10 => \E x \in 1..Len(o[n]) : o[n][x][1] = f - 1 THEN {} ELSE {"frame interval missing"})
                 \cup (IF \A x \in {y \in 1..Len(o[n]) : o[n][y][1] \in 0..(Len(F) - 2)} :
                         LET f == o[n][x][1] + 1  h == Common(c[1], c[2], F[f], F[f + 1])
                         IN ShareOf(o[n][x][2], F[f + 1] - F[f], h) /\ ShareOf(o[n][x][3], c[2] - c[1], h) THEN {} ELSE {"frame fractions"})
                 : n \in 1..Len(o)}

ReloadBad(s, e) ==
  IF /\ DOMAIN e.obs.v = DOMAIN s.w
     /\ \A n \in DOMAIN s.w : e.obs.name[n] = n /\ \A k \in {"md", "gi", "cells", "faces"} : e.obs.v[n][k] = s.w[n].b[k] THEN {} ELSE {"reload"}

---------------------------------------------------------------------------
Well(g, e, b) == [kmd |-> [i \in 1..Len(e.mds) |-> e.mds[i] * 1000], kpt |-> [i \in 1..Len(e.pts) |-> [x \in 1..3 |-> 2 * e.pts[i][x]]],
                  live |-> e.live, off |-> e.off, down |-> (g.down # e.flip), uom |-> "m", b |-> b]
CellWell(g, e, b) == [kmd |-> b.kmd, kpt |-> [i \in 1..Len(b.kpt) |-> Turned(g, b.kpt[i])], live |-> FALSE, off |-> <<0, 0>>, down |-> g.down,
                      uom |-> IF e.uom = "ft" THEN "ft" ELSE "m", b |-> b]

Did(s, e) ==
  CASE e.op = "grid" -> {}
    [] e.op = "block" -> BlockBad(s.g, Well(s.g, e, e.obs), e.obs)
    [] e.op = "cells" -> CellsBad(s.g, e, e.obs)
    [] e.op = "where" -> WhereBad(s.w[e.n], e)
    [] e.op = "maps" -> MapsBad(s.w[e.n], e)
    [] e.op = "prop" -> PropBad(s.g, s.w[e.n], e)
    [] e.op = "table" -> TableBad(s.g, s.w[e.n], e)
    [] e.op = "frame" -> FrameBad(s.w[e.n], e)
    [] e.op = "reload" -> ReloadBad(s, e)
DBad(s, e) == IF e.res.k # "ok" THEN {"failed"} ELSE Did(s, e)

DPost(s, e) ==
  CASE e.op = "grid" -> [s EXCEPT !.g = e.g]
    [] e.op = "block" -> IF e.obs.cells = <<>> THEN s ELSE [s EXCEPT !.w = Put(@, e.n, Well(s.g, e, e.obs))]
    [] e.op = "cells" -> [s EXCEPT !.w = Put(@, e.n, CellWell(s.g, e, e.obs))]
    [] OTHER -> s
=============================================================================
