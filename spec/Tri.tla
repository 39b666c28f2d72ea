------------------------------- MODULE Tri -------------------------------
(* A mesh of equilateral triangles: rows of nodes, every other row half a    *)
(* side along.  In plan, positions are given from the first node, with x in  *)
(* sixteenths of a side and y in sixteenths of the distance between rows.    *)
(* z values are whole eighths; Gone where there is none.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gone == -77777
TriInit == [nj |-> 0, ni |-> 0, z |-> <<>>, t |-> 8, o |-> <<0, 0>>, crs |-> 1, title |-> "", role |-> "map", uom |-> ""]

RangeOf(q) == {q[i] : i \in DOMAIN q}
Abs(x) == IF x < 0 THEN -x ELSE x
Rest(a, b) == a % b
Odd(x) == Rest(x, 2)
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN 0 ELSE LET a == CHOOSE a \in S : TRUE IN F(a) + SumOver(F, S \ {a})

\* ---- nodes and triangles
Nodes(s) == (0..s.nj - 1) \X (0..s.ni - 1)
At(j, i) == <<16 * i + 8 * Odd(j), 16 * j>>
Z(s, n) == s.z[n[1] + 1][n[2] + 1]
Tris(s) == (0..s.nj - 2) \X (0..2 * (s.ni - 1) - 1)
\* triangle ti of a strip: the even ones have their base on an even row, the odd ones on an odd row;
\* the base nodes come first, along the row
NodesOf(tj, ti) ==
  LET even == tj + Odd(tj)                       \* the row of the strip that is even
      odd == tj + 1 - Odd(tj)
      i == ti \div 2
      base == IF Odd(ti) = 0 THEN even ELSE odd
      tip == IF Odd(ti) = 0 THEN odd ELSE even
  IN << <<base, i>>, <<base, i + 1>>, <<tip, i + Odd(ti)>> >>
Sides(s) == UNION {LET n == NodesOf(w[1], w[2]) IN {{n[1], n[2]}, {n[2], n[3]}, {n[1], n[3]}} : w \in Tris(s)}
Index(s, w) == 2 * (s.ni - 1) * w[1] + w[2]

\* ---- points in the plan
Clock(a, b, c) == (c[1] - a[1]) * (b[2] - a[2]) - (c[2] - a[2]) * (b[1] - a[1])
\* 1 within the triangle, 0 on its edge, -1 outside it
Within(a, b, c, x) == LET sg == {Sgn(Clock(a, b, x)), Sgn(Clock(b, c, x)), Sgn(Clock(c, a, x))}
                      IN IF sg \in {{1}, {-1}} THEN 1 ELSE IF 1 \in sg /\ -1 \in sg THEN -1 ELSE 0
In(w, x) == LET n == NodesOf(w[1], w[2]) IN Within(At(n[1][1], n[1][2]), At(n[2][1], n[2][2]), At(n[3][1], n[3][2]), x)
\* weights, in thirty-seconds, are those of x
Weighs(w, f, x) ==
  LET n == NodesOf(w[1], w[2])
      c(d) == f[1] * At(n[1][1], n[1][2])[d] + f[2] * At(n[2][1], n[2][2])[d] + f[3] * At(n[3][1], n[3][2])[d]
  IN /\ f[1] + f[2] + f[3] = 32 /\ \A k \in 1..3 : f[k] >= 0
     /\ c(1) = 32 * x[1] /\ c(2) = 32 * x[2]
Hits(s, x) == {w \in Tris(s) : In(w, x) # -1}
Inner(s, x) == {w \in Tris(s) : In(w, x) = 1}
\* an answer: triangle and weights (<<>> if there is no triangle there)
Found(s, x, a) == IF a = <<>> THEN Inner(s, x) = {}
                  ELSE <<a[1], a[2]>> \in Tris(s) /\ Weighs(<<a[1], a[2]>>, <<a[3], a[4], a[5]>>, x)
\* z at x, thirty-two times, by triangle w
ZOf(s, w, x) == LET n == NodesOf(w[1], w[2])
                    a == At(n[1][1], n[1][2])
                    \* weights again, from the areas; a base is 16 along and a height 16
                    f3 == 2 * Abs(x[2] - a[2])
                    f2 == 2 * (x[1] - a[1]) - f3 \div 2
                    f1 == 32 - f2 - f3
                    g(k) == Z(s, n[k])
                IN IF Gone \in {g(1), g(2), g(3)} THEN Gone ELSE f1 * g(1) + f2 * g(2) + f3 * g(3)
ZFound(s, x, a) == IF a = <<>> THEN Inner(s, x) = {} \/ \E w \in Hits(s, x) : ZOf(s, w, x) = Gone
                   ELSE \E w \in Hits(s, x) : ZOf(s, w, x) # Gone /\ Abs(ZOf(s, w, x) - a[1]) <= 1

\* ---- places where the sides meet a value
\* v(n): the value at a node less that looked for; x, y in 64ths, z in 64ths
Cross(s, n, m, u, v) ==
  LET a == At(n[1], n[2])  b == At(m[1], m[2])  d == v - u       \* u < 0 < v
      at(p, q) == 4 * p + ((0 - 4 * u) * (q - p)) \div d
      up(p, q) == 8 * p + ((0 - 8 * u) * (q - p)) \div d
  IN <<at(a[1], b[1]), at(a[2], b[2]), IF Gone \in {Z(s, n), Z(s, m)} THEN Gone ELSE up(Z(s, n), Z(s, m))>>
Near(a, b) == \A k \in 1..3 : Abs(a[k] - b[k]) <= 2
Value(s, e, n) == CASE e.ax = 3 -> IF Z(s, n) = Gone THEN Gone ELSE Z(s, n) - e.val
                    [] e.ax = 0 -> e.f[n[1] + 1][n[2] + 1]
                    [] OTHER -> At(n[1], n[2])[e.ax] - e.val
\* sides that cross the value, and those that touch it
CrossSides(s, e) == {x \in Sides(s) : LET q == {Value(s, e, n) : n \in x} IN Gone \notin q /\ (\E a, b \in q : a < 0 /\ b > 0)}
CrossOk(s, e) ==
  LET sides == CrossSides(s, e)
      pt(x) == LET n == CHOOSE n \in x : Value(s, e, n) < 0  m == CHOOSE m \in x : m # n IN Cross(s, n, m, Value(s, e, n), Value(s, e, m))
      pts == {pt(x) : x \in sides}
      on == {n \in Nodes(s) : Value(s, e, n) = 0}
  IN /\ \A p \in pts : \E k \in DOMAIN e.obs : Near(p, e.obs[k])
     /\ \A k \in DOMAIN e.obs : (\E p \in pts : Near(p, e.obs[k]))
                                \/ \E n \in on : Near(<<4 * At(n[1], n[2])[1], 4 * At(n[1], n[2])[2], IF Z(s, n) = Gone THEN Gone ELSE 8 * Z(s, n)>>, e.obs[k])
     /\ (on = {} => Len(e.obs) = Cardinality(sides))

\* ---- stencils
\* number of steps from node to node
Steps(n, m) == LET q(x) == x[2] - (x[1] - Odd(x[1])) \div 2
                   dq == q(m) - q(n)  dr == m[1] - n[1]
                   a == Abs(dq)  b == Abs(dr)  c == Abs(dq + dr)
               IN IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
\* weight of a ring, in twelfths; if not flat, the weight of a ring is shared between its nodes
Ring(e, d) == IF d = 0 \/ e.flat \/ e.norm = <<>> THEN 12 * e.p[d + 1] ELSE (12 * e.p[d + 1]) \div (6 * d)
\* what all the weights together come to
Whole(e) == IF e.norm = <<>> THEN 12 ELSE SumOver(LAMBDA d : Ring(e, d) * (IF d = 0 THEN 1 ELSE 6 * d), 0..Len(e.p) - 1)
Reach(s, e, n) == {m \in Nodes(s) : Steps(n, m) < Len(e.p)}
\* whether the whole stencil is on the mesh
Inland(s, e, n) == Cardinality(Reach(s, e, n)) = 1 + 3 * Len(e.p) * (Len(e.p) - 1)
Stencilled(s, e, n, v) ==
  LET near == Reach(s, e, n)
      have == {m \in near : Z(s, m) # Gone}
      sum == SumOver(LAMBDA m : Ring(e, Steps(n, m)) * Z(s, m), have)
      wt == SumOver(LAMBDA m : Ring(e, Steps(n, m)), have)
      f == IF e.norm = <<>> THEN 1 ELSE e.norm[1]
      \* nodes beyond the mesh count as zero, if so asked
      beyond == SumOver(LAMBDA d : Ring(e, d) * ((IF d = 0 THEN 1 ELSE 6 * d) - Cardinality({m \in near : Steps(n, m) = d})), 0..Len(e.p) - 1)
  IN IF e.mean THEN
       (IF e.keep /\ Z(s, n) = Gone THEN v = Gone
        ELSE LET all == wt + IF e.border THEN beyond ELSE 0 IN
             IF all = 0 THEN v = Gone ELSE v # Gone /\ Abs(v * all - 64 * sum) <= all)
     ELSE IF have # near \/ (~e.border /\ ~Inland(s, e, n)) THEN v = Gone
     ELSE v # Gone /\ Abs(v * Whole(e) - 64 * f * sum) <= Whole(e)

TriBad(s, e) ==
  IF e.res.k # "ok" THEN {"failed"} ELSE
  LET y == e.obs IN
  CASE e.op = "make" -> {}
    \* all the nodes: place, height
    [] e.op = "look" ->
         (IF y.p = [j \in 1..s.nj |-> [i \in 1..s.ni |-> <<At(j - 1, i - 1)[1], At(j - 1, i - 1)[2], s.z[j][i]>>]] THEN {} ELSE {"nodes"})
         \cup (IF <<y.t, y.o, y.title, y.role, y.uom>> = <<s.t, s.o, s.title, s.role, s.uom>> THEN {} ELSE {"attributes"})
    [] e.op = "find" -> IF \A k \in 1..Len(e.x) : Found(s, e.x[k], y[k]) THEN {} ELSE {"found"}
    [] e.op = "z" -> IF \A k \in 1..Len(e.x) : ZFound(s, e.x[k], y[k]) THEN {} ELSE {"interpolated"}
    [] e.op = "corners" -> IF y = [k \in 1..Len(e.w) |-> IF <<e.w[k][1], e.w[k][2]>> \in Tris(s) THEN NodesOf(e.w[k][1], e.w[k][2])
                                                          ELSE << <<-1, -1>>, <<-1, -1>>, <<-1, -1>> >>] THEN {} ELSE {"corners"}
    [] e.op = "all" -> IF y = [j \in 1..s.nj - 1 |-> [i \in 1..2 * (s.ni - 1) |-> NodesOf(j - 1, i - 1)]] THEN {} ELSE {"all corners"}
    [] e.op = "surface" ->       \* triangles, as numbers of points; or without those that have no height
         LET node(k) == <<(k - 1) \div s.ni, Rest(k - 1, s.ni)>>
             all == s.nj * s.ni
             keep == SelectSeq([k \in 1..all |-> k], LAMBDA k : ~e.trim \/ Z(s, node(k)) # Gone)
             wide == 2 * (s.ni - 1)
             tri(k) == NodesOf((k - 1) \div wide, Rest(k - 1, wide))
             ts == SelectSeq([k \in 1..2 * (s.ni - 1) * (s.nj - 1) |-> tri(k)], LAMBDA w : ~e.trim \/ \A c \in 1..3 : Z(s, w[c]) # Gone)
             num(n) == IF e.trim THEN Cardinality({k \in 1..Len(keep) : keep[k] < n[1] * s.ni + n[2] + 1}) ELSE n[1] * s.ni + n[2]
         IN IF y.p # [k \in 1..Len(keep) |-> LET n == node(keep[k]) IN <<At(n[1], n[2])[1], At(n[1], n[2])[2], Z(s, n)>>] THEN {"points of surface"}
            ELSE IF y.t # [k \in 1..Len(ts) |-> [c \in 1..3 |-> num(ts[k][c])]] THEN {"triangles of surface"} ELSE {}
    [] e.op = "index" -> IF y = [k \in 1..Len(e.w) |-> <<Index(s, e.w[k]), e.w[k][1], e.w[k][2]>>] THEN {} ELSE {"index"}
    [] e.op = "within" ->
         LET S == RangeOf(y)
             c(k, n) == Within(e.w[k][1], e.w[k][2], e.w[k][3], At(n[1], n[2]))
         IN IF \A k \in 1..Len(e.w) : \A n \in Nodes(s) : (c(k, n) = 1 => <<k - 1, n[1], n[2]>> \in S) /\ (c(k, n) = -1 => <<k - 1, n[1], n[2]>> \notin S) THEN
            (IF Cardinality(S) = Len(y) /\ \A x \in S : x[1] + 1 \in 1..Len(e.w) /\ <<x[2], x[3]>> \in Nodes(s) THEN {} ELSE {"nodes repeated"}) ELSE {"nodes within"}
    [] e.op = "cross" -> IF CrossOk(s, e) THEN {} ELSE {"crossings"}
    \* another mesh has the same nodes in plan
    [] e.op = "like" -> IF y = (<<e.nj, e.ni, e.t, e.o>> = <<s.nj, s.ni, s.t, s.o>> /\ e.same) THEN {} ELSE {"compatible"}
    [] e.op = "stencil" ->
         IF y.title # (IF e.title = "" THEN s.title ELSE e.title) THEN {"title of result"}
         ELSE IF \A j \in 1..s.nj, i \in 1..s.ni : Stencilled(s, e, <<j - 1, i - 1>>, y.z[j][i]) THEN {} ELSE {"stencil"}
    [] e.op = "again" -> {}
    [] OTHER -> {"unknown event"}
TriPost(s, e) ==
  CASE e.op = "make" -> [nj |-> e.nj, ni |-> e.ni, z |-> e.z, t |-> e.t, o |-> e.o, crs |-> 1, title |-> e.title, role |-> e.role, uom |-> e.uom]
    \* a mesh of the same plan with other heights
    [] e.op = "again" -> [s EXCEPT !.z = e.z, !.title = IF e.title = "" THEN @ ELSE e.title, !.role = e.role, !.uom = IF e.uom = "" THEN @ ELSE e.uom]
    [] OTHER -> s
=============================================================================
