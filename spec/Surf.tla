------------------------------- MODULE Surf -------------------------------
(* A triangulated surface: an ordered list of patches, each of triangles (0  *)
(* based indices into the points of the patch) and points.  Coordinates are  *)
(* in eighths.  The state is the surface as it stands; each event builds,    *)
(* derives, changes, stores or asks.  Where more than one triangulation is   *)
(* allowed, the one that was made is taken over once it is known to be one   *)
(* of those.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSrc == [k |-> "none", quad |-> FALSE, ni |-> 0]
SurfInit == [pt |-> <<>>, src |-> NoSrc, role |-> "", title |-> "", em |-> {},
             xyd |-> 10, zd |-> 10, down |-> TRUE, off |-> <<0, 0, 0>>]

\* ---- little things
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RangeOf(q) == {q[i] : i \in DOMAIN q}
\* quotient rounded down, for any sign of divisor
Quo(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
RECURSIVE MinOf(_)
MinOf(q) == IF Len(q) = 1 THEN Head(q) ELSE LET m == MinOf(Tail(q)) IN IF Head(q) < m THEN Head(q) ELSE m

\* ---- patches
Tri(p, n) == LET w == p.t[n] IN <<p.p[w[1] + 1], p.p[w[2] + 1], p.p[w[3] + 1]>>
Tris(p) == [n \in 1..Len(p.t) |-> Tri(p, n)]
Sets(p) == [n \in 1..Len(p.t) |-> RangeOf(Tri(p, n))]
Sound(p) == \A n \in 1..Len(p.t) : \A c \in 1..3 : p.t[n][c] \in 0..(Len(p.p) - 1)
Offset(q, n) == Total([m \in 1..(n - 1) |-> Len(q[m].p)])
\* all the patches as one
Whole(q) == [t |-> Flat([n \in 1..Len(q) |-> LET d == Offset(q, n) IN
                          [m \in 1..Len(q[n].t) |-> <<q[n].t[m][1] + d, q[n].t[m][2] + d, q[n].t[m][3] + d>>]]),
             p |-> Flat([n \in 1..Len(q) |-> q[n].p])]
\* the part asked for: 0 for all the patches, otherwise the number of the patch
PartOf(q, n) == IF n = 0 THEN Whole(q) ELSE q[n]
Used(p) == UNION {RangeOf(p.t[n]) : n \in 1..Len(p.t)}

\* ---- a quadrilateral of corners <<00, 01, 10, 11>> cut into triangles
Mid4(c) == <<(c[1][1] + c[2][1] + c[3][1] + c[4][1]) \div 4, (c[1][2] + c[2][2] + c[3][2] + c[4][2]) \div 4,
             (c[1][3] + c[2][3] + c[3][3] + c[4][3]) \div 4>>
Cut2(c) == {{{c[1], c[2], c[3]}, {c[2], c[3], c[4]}}, {{c[1], c[2], c[4]}, {c[1], c[3], c[4]}}}
Cut4(c) == LET m == Mid4(c) IN {{{m, c[1], c[2]}, {m, c[2], c[4]}, {m, c[4], c[3]}, {m, c[3], c[1]}}}
Cuts(c, quad) == IF quad THEN Cut4(c) ELSE Cut2(c)
\* the triangles of p numbered from n are a cut of the quadrilateral
CutAt(p, n, c, quad) == {RangeOf(Tri(p, n + m)) : m \in 0..(IF quad THEN 3 ELSE 1)} \in Cuts(c, quad)
\* the quadrilaterals (in order) are each cut, in order
AllCut(p, cs, quad) == LET w == IF quad THEN 4 ELSE 2 IN
                       /\ Len(p.t) = w * Len(cs)
                       /\ \A n \in 1..Len(cs) : CutAt(p, w * (n - 1) + 1, cs[n], quad)

\* ---- meshes: rows of points; no z at a missing one
Gone(x) == x = <<>>
Quads(m) == Flat([j \in 1..(Len(m) - 1) |-> [i \in 1..(Len(m[1]) - 1) |-> <<m[j][i], m[j][i + 1], m[j + 1][i], m[j + 1][i + 1]>>]])
Missing(m) == \E j \in 1..Len(m) : \E i \in 1..Len(m[j]) : Gone(m[j][i])
Have(c) == {n \in 1..4 : ~Gone(c[n])}
\* quadrilaterals with no corner missing are cut in two, those with one missing leave a triangle
SparseOk(p, m) ==
  LET cs == Quads(m)
      w(c) == CASE Cardinality(Have(c)) = 4 -> 2 [] Cardinality(Have(c)) = 3 -> 1 [] OTHER -> 0
      all == RangeOf(Sets(p))
  IN /\ Len(p.t) = Total([n \in 1..Len(cs) |-> w(cs[n])])
     /\ \A n \in 1..Len(cs) : CASE w(cs[n]) = 2 -> \E x \in Cut2(cs[n]) : x \subseteq all
                                [] w(cs[n]) = 1 -> {cs[n][i] : i \in Have(cs[n])} \in all
                                [] OTHER -> TRUE
NodesOf(m) == {x \in UNION {RangeOf(m[j]) : j \in 1..Len(m)} : ~Gone(x)}

\* ---- cells: corner points of a cell, numbered k, j, i with i the fastest
FaceOf(cp, ax, pol) ==
  LET b(n) == CASE ax = 0 -> <<pol * 4, pol * 4 + 1, pol * 4 + 2, pol * 4 + 3>>[n]
                [] ax = 1 -> <<pol * 2, pol * 2 + 1, pol * 2 + 4, pol * 2 + 5>>[n]
                [] OTHER -> <<pol, pol + 2, pol + 4, pol + 6>>[n]
  IN [n \in 1..4 |-> cp[b(n) + 1]]
FacesOf(cp) == [n \in 1..6 |-> FaceOf(cp, (n - 1) \div 2, (n - 1) % 2)]

\* ---- inside, in plan and in space
Clock(a, b, c) == (c[1] - a[1]) * (b[2] - a[2]) - (c[2] - a[2]) * (b[1] - a[1])    \* positive if clockwise
\* a convex polygon (strictly inside; the harness keeps points off its edges)
InPoly(poly, x) == LET n == Len(poly) IN
                   Cardinality({Sign(Clock(poly[i], poly[(i % n) + 1], x)) : i \in 1..n}) = 1
InBox(box, x) == \A i \in 1..3 : x[i] > box[1][i] /\ x[i] < box[2][i]
InTrim(e, x) == /\ (e.box = <<>> \/ InBox(e.box, x))
                /\ (e.poly = <<>> \/ InPoly(e.poly, x))

\* ---- meeting of a line with a triangle: "in", "out" or "edge" (either will do)
Meet(lp, lv, w) ==
  LET a == Sub(w[1], lp)  b == Sub(w[2], lp)  c == Sub(w[3], lp)
      n == Cross(Sub(w[2], w[1]), Sub(w[3], w[1]))
      sg == {Sign(Dot(lv, Cross(a, b))), Sign(Dot(lv, Cross(b, c))), Sign(Dot(lv, Cross(c, a)))}
  IN IF Dot(n, lv) = 0 THEN (IF 1 \in sg /\ -1 \in sg THEN "out" ELSE "out")
     ELSE IF sg \in {{1}, {-1}} THEN "in"
     ELSE IF 1 \in sg /\ -1 \in sg THEN "out" ELSE "edge"
\* where, in sixty-fourths
Where(lp, lv, w) ==
  LET n == Cross(Sub(w[2], w[1]), Sub(w[3], w[1]))
      u == Dot(n, Sub(w[1], lp))
      d == Dot(n, lv)
  IN [i \in 1..3 |-> lp[i] * 8 + Quo(u * lv[i] * 8, d)]
Near(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol
\* for a segment of eight times lv: whether the meeting is within it
Within(lp, lv, w) ==
  LET n == Cross(Sub(w[2], w[1]), Sub(w[3], w[1]))
      u == Dot(n, Sub(w[1], lp))
      d == Dot(n, lv)
      uu == IF d < 0 THEN -u ELSE u
      dd == Abs(d)
  IN CASE uu > 0 /\ uu < 8 * dd -> "in" [] uu = 0 \/ uu = 8 * dd -> "edge" [] OTHER -> "out"
Hit(lp, lv, w, seg) ==
  LET m == Meet(lp, lv, w) IN
  IF m = "out" THEN "out" ELSE IF ~seg THEN m
  ELSE LET x == Within(lp, lv, w) IN IF x = "out" THEN "out" ELSE IF x = "in" THEN m ELSE "edge"

\* ---- a new surface made of the patches q
Made(s, q, src) == [s EXCEPT !.pt = q, !.src = src]
Src(k, quad, ni) == [k |-> k, quad |-> quad, ni |-> ni]

\* what is wrong with the patches that were seen after a build
BuildBad(s, e) ==
  LET q == e.obs IN
  CASE e.how \in {"tp", "tsurf"} -> IF q = e.pt THEN {} ELSE {"given"}
    [] e.how = "mesh" ->
         IF Len(q) # 1 \/ ~Sound(q[1]) THEN {"patches"}
         ELSE IF RangeOf(q[1].p) \cap NodesOf(e.m) # NodesOf(e.m) THEN {"nodes"}
         ELSE IF Missing(e.m) THEN (IF SparseOk(q[1], e.m) THEN {} ELSE {"sparse"})
         ELSE IF AllCut(q[1], Quads(e.m), e.quad) THEN {} ELSE {"cut"}
    [] e.how = "torn" ->
         IF Len(q) # 1 \/ ~Sound(q[1]) THEN {"patches"}
         ELSE IF AllCut(q[1], e.m, e.quad) THEN {} ELSE {"cut"}
    [] e.how = "cells" ->
         IF Len(q) # Len(e.m) \/ \E n \in 1..Len(q) : ~Sound(q[n]) THEN {"patches"}
         ELSE IF \A n \in 1..Len(q) : AllCut(q[n], FacesOf(e.m[n]), e.quad) THEN {} ELSE {"cut"}
    [] e.how = "one" ->          \* a single quadrilateral: horizontal plane, or pair of triangles
         IF Len(q) # 1 \/ ~Sound(q[1]) THEN {"patches"}
         ELSE IF AllCut(q[1], e.m, e.quad) THEN {} ELSE {"cut"}
    [] OTHER -> {"unknown"}
BuildPost(s, e) == Made(s, e.obs, CASE e.how = "mesh" /\ ~Missing(e.m) -> Src("mesh", e.quad, Len(e.m[1]) - 1)
                                    [] e.how = "torn" -> Src("mesh", e.quad, e.ni)
                                    [] e.how = "cells" -> Src("cells", e.quad, 0)
                                    [] OTHER -> NoSrc)

\* ---- derivations
\* the patch left after trimming, as a list of triangles; and as many points as are used
Kept(p, e) == LET w == Tris(p)
                  ok(n) == \E c \in 1..3 : InTrim(e, w[n][c])
              IN SelectSeq([n \in 1..Len(w) |-> IF ok(n) THEN w[n] ELSE <<>>], LAMBDA x : x # <<>>)
KeptPatches(s, e) == SelectSeq([n \in 1..Len(s.pt) |-> Kept(s.pt[n], e)], LAMBDA x : x # <<>>)
KeptUsed(p, e) == LET w == Tris(p)
                      ok(n) == \E c \in 1..3 : InTrim(e, w[n][c])
                  IN Cardinality(UNION {RangeOf(p.t[n]) : n \in {m \in 1..Len(w) : ok(m)}})
KeptCounts(s, e) == SelectSeq([n \in 1..Len(s.pt) |-> KeptUsed(s.pt[n], e)], LAMBDA x : x # 0)
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2>>
Quarter(w) == LET a == Mid(w[1], w[2])  b == Mid(w[2], w[3])  c == Mid(w[3], w[1])
              IN {{w[1], a, c}, {w[2], a, b}, {w[3], b, c}, {a, b, c}}
Shift(w, d) == {Add(x, d) : x \in w}
Side(e, x) == Sign(Clock(e.line[1], e.line[2], x))      \* 1 if right of the line
DeriveBad(s, e) ==
  LET q == e.obs
      w == Whole(s.pt)
  IN
  CASE e.how = "trim" ->
         LET k == KeptPatches(s, e) IN
         IF Len(q) # Len(k) THEN {"patches"}
         ELSE IF \E n \in 1..Len(q) : ~Sound(q[n]) THEN {"indices"}
         ELSE IF [n \in 1..Len(q) |-> Tris(q[n])] # k THEN {"kept"}
         ELSE IF [n \in 1..Len(q) |-> Len(q[n].p)] # KeptCounts(s, e) THEN {"points"} ELSE {}
    [] e.how = "split" ->
         LET all == IF Len(q) = 1 /\ Sound(q[1]) THEN RangeOf(Sets(q[1])) ELSE {}
             sd(n) == {Side(e, Tri(w, n)[c]) : c \in 1..3}
             ok(n) == LET x == RangeOf(Tri(w, n))
                          r == Shift(x, e.delta[1]) \in all
                          f == Shift(x, e.delta[2]) \in all
                      IN IF sd(n) = {1} THEN r ELSE IF sd(n) = {-1} THEN f ELSE r \/ f
             \* and nothing else
             from(x) == \E n \in 1..Len(w.t) : \/ (sd(n) # {-1} /\ x = Shift(RangeOf(Tri(w, n)), e.delta[1]))
                                               \/ (sd(n) # {1} /\ x = Shift(RangeOf(Tri(w, n)), e.delta[2]))
         IN IF \A n \in 1..Len(w.t) : ok(n) THEN (IF \A x \in all : from(x) THEN {} ELSE {"made up"}) ELSE {"torn"}
    [] e.how = "quarter" ->
         IF Len(q) # 1 \/ ~Sound(q[1]) THEN {"patches"}
         ELSE IF Len(q[1].t) # 4 * Len(w.t) THEN {"count"}
         ELSE IF \A n \in 1..Len(w.t) : Quarter(Tri(w, n)) \subseteq RangeOf(Sets(q[1]))
              THEN (IF Cardinality(RangeOf(q[1].p)) = Len(q[1].p) THEN {} ELSE {"repeated"}) ELSE {"quarters"}
    [] OTHER -> {"unknown"}
DerivePost(s, e) == IF e.keep THEN s
                    ELSE [Made(s, e.obs, NoSrc) EXCEPT !.title = e.title, !.em = {<<x[1], x[2]>> : x \in RangeOf(e.em)}, !.role = e.role]

\* ---- changes in place
Scaled(s, e) ==
  LET ref == IF e.ref = <<>> THEN MinOf([n \in 1..Len(s.pt) |-> MinOf([m \in 1..Len(s.pt[n].p) |-> s.pt[n].p[m][3]])]) ELSE e.ref[1]
      f(z) == ref + ((z - ref) * e.f[1]) \div e.f[2]
  IN [n \in 1..Len(s.pt) |-> [t |-> s.pt[n].t, p |-> [m \in 1..Len(s.pt[n].p) |-> <<s.pt[n].p[m][1], s.pt[n].p[m][2], f(s.pt[n].p[m][3])>>]]]
\* another coordinate system: other offsets, other direction of z
Moved(s, e) ==
  LET f(x) == LET z == s.off[3] + x[3]
                  y == IF s.down = e.down THEN z ELSE -z
              IN <<x[1] + s.off[1] - e.off[1], x[2] + s.off[2] - e.off[2], y - e.off[3]>>
  IN [n \in 1..Len(s.pt) |-> [t |-> s.pt[n].t, p |-> [m \in 1..Len(s.pt[n].p) |-> f(s.pt[n].p[m])]]]
\* same triangles with the corners of each perhaps in the other order
SameSets(a, b) == /\ Len(a) = Len(b)
                  /\ \A n \in 1..Len(a) : a[n].p = b[n].p /\ Len(a[n].t) = Len(b[n].t)
                                          /\ \A m \in 1..Len(a[n].t) : RangeOf(a[n].t[m]) = RangeOf(b[n].t[m])
AllClock(q) == \A n \in 1..Len(q) : \A m \in 1..Len(q[n].t) : LET w == Tri(q[n], m) IN Clock(w[1], w[2], w[3]) >= 0
ChangeBad(s, e) ==
  CASE e.how = "rescale" -> IF e.obs = Scaled(s, e) THEN {} ELSE {"rescaled"}
    [] e.how = "crs" -> IF e.obs = Moved(s, e) THEN {} ELSE {"moved"}
    [] e.how = "clock" -> IF ~SameSets(e.obs, s.pt) THEN {"changed"} ELSE IF AllClock(e.obs) THEN {} ELSE {"clockwise"}
    [] OTHER -> {"unknown"}
ChangePost(s, e) == LET r == [s EXCEPT !.pt = e.obs] IN
                    IF e.how = "crs" THEN [r EXCEPT !.off = e.off, !.down = e.down] ELSE r

\* ---- stored, and read from another model
StoreBad(s, e) == (IF e.obs = s.pt THEN {} ELSE {"stored"})
                  \cup (IF e.role = s.role THEN {} ELSE {"role"})
                  \cup (IF e.title = s.title THEN {} ELSE {"title"})
                  \cup (IF s.em \subseteq {<<x[1], x[2]>> : x \in RangeOf(e.em)} THEN {} ELSE {"metadata"})
                  \cup (IF e.crs THEN {} ELSE {"crs"})

\* ---- questions
Edges(p) == UNION {{{p.t[n][1], p.t[n][2]}, {p.t[n][2], p.t[n][3]}, {p.t[n][3], p.t[n][1]}} : n \in 1..Len(p.t)}
EdgeUse(p, x) == Cardinality({n \in 1..Len(p.t) : x \subseteq RangeOf(p.t[n])})
Sq(x) == x * x
\* square of the length of a side, in 64ths of a dm2 (factor xyd, zd: dm per unit)
Len2(s, a, b) == Sq((a[1] - b[1]) * s.xyd) + Sq((a[2] - b[2]) * s.xyd) + Sq((a[3] - b[3]) * s.zd)
Crossings(p, ax, val) ==
  {[i \in 1..3 |-> LET a == p.p[x[1] + 1]  b == p.p[x[2] + 1] IN
                   a[i] * 8 + Quo((val - a[ax]) * (b[i] - a[i]) * 8, b[ax] - a[ax])] :
   x \in {y \in UNION {{<<p.t[n][1], p.t[n][2]>>, <<p.t[n][2], p.t[n][3]>>, <<p.t[n][3], p.t[n][1]>>} : n \in 1..Len(p.t)} :
            (p.p[y[1] + 1][ax] - val) * (p.p[y[2] + 1][ax] - val) < 0}}
CrossingCount(p, ax, val) == Cardinality({x \in Edges(p) : \E a, b \in x : p.p[a + 1][ax] < val /\ p.p[b + 1][ax] > val})
TrueN(s, w) == LET f(x) == IF s.xyd = s.zd THEN x ELSE <<x[1] * s.xyd, x[2] * s.xyd, x[3] * s.zd>>
               IN Cross(Sub(f(w[2]), f(w[1])), Sub(f(w[3]), f(w[1])))
\* n: five hundred times a unit vector
NormalOk(s, w, n) ==
  LET m == TrueN(s, w)
      c == Cross(m, n)
      tol == Abs(m[1]) + Abs(m[2]) + Abs(m[3])
  IN /\ (IF s.down THEN n[3] <= 0 ELSE n[3] >= 0)
     /\ \A i \in 1..3 : Abs(c[i]) <= tol
     /\ Abs(Dot(n, n) - 250000) <= 2000
Column(s, n) == LET c == n \div (IF s.src.quad THEN 4 ELSE 2) IN
                IF s.src.k = "mesh" /\ n < Len(s.pt[1].t) THEN <<c \div s.src.ni, c % s.src.ni>> ELSE <<>>
CellFace(s, n) == LET f == n \div (IF s.src.quad THEN 4 ELSE 2) IN <<f \div 6, (f % 6) \div 2, f % 2>>
Combined(s, e) == LET all == [n \in 1..Len(e.list) |-> IF e.list[n] = 0 THEN Whole(s.pt) ELSE Whole(e.pool[e.list[n]])] IN Whole(all)
\* triangles that are left when points with no value are taken out
Clean(t, p) ==
  LET keep == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : ~Gone(p[i]))
      pos(i) == Cardinality({k \in 1..Len(keep) : keep[k] < i})
      ok == SelectSeq(t, LAMBDA w : \A c \in 1..3 : ~Gone(p[w[c] + 1]))
  IN [p |-> [k \in 1..Len(keep) |-> p[keep[k]]],
      t |-> [n \in 1..Len(ok) |-> <<pos(ok[n][1] + 1), pos(ok[n][2] + 1), pos(ok[n][3] + 1)>>]]
AskBad(s, e) ==
  LET p == IF "part" \in DOMAIN e THEN PartOf(s.pt, e.part) ELSE Whole(s.pt)
      w == Tris(p)
      y == e.obs
      nt == Len(p.t)
  IN
  CASE e.q = "arrays" -> IF y = p THEN {} ELSE {"arrays"}
    [] e.q = "counts" -> IF y = <<nt, Len(p.p), Len(s.pt)>> THEN {} ELSE {"counts"}
    [] e.q = "edges" ->
         IF {<<{x[1], x[2]}, x[3]>> : x \in RangeOf(y)} = {<<x, IF e.counts THEN EdgeUse(p, x) ELSE 0>> : x \in Edges(p)}
            /\ Len(y) = Cardinality(Edges(p)) /\ \A x \in RangeOf(y) : x[1] <= x[2] THEN {} ELSE {"edges"}
    [] e.q = "lengths" ->
         IF y = [n \in 1..nt |-> <<Len2(s, w[n][1], w[n][2]), Len2(s, w[n][2], w[n][3]), Len2(s, w[n][3], w[n][1])>>] THEN {} ELSE {"lengths"}
    [] e.q = "normals" -> IF Len(y) = nt /\ \A n \in 1..nt : NormalOk(s, w[n], y[n]) THEN {} ELSE {"normals"}
    [] e.q = "crossings" ->
         LET x == Crossings(p, e.ax, e.val) IN
         IF Len(y) # CrossingCount(p, e.ax, e.val) THEN {"number of crossings"}
         ELSE IF (\A a \in x : \E n \in 1..Len(y) : Near(a, y[n], 1)) /\ (\A n \in 1..Len(y) : \E a \in x : Near(a, y[n], 1)) THEN {} ELSE {"crossings"}
    [] e.q = "sample" ->
         LET up == <<0, 0, 1>>
             one(x, z) ==
               LET at == <<x[1], x[2], 0>>
                   ins == {n \in 1..nt : Meet(at, up, w[n]) = "in"}
                   mb == {n \in 1..nt : Meet(at, up, w[n]) = "edge"}
                   zs(k) == {Where(at, up, w[n])[3] : n \in k}
               IN CASE e.mode = "exception" /\ Cardinality(ins) > 1 -> FALSE      \* should not have answered
                    [] z = <<>> -> ins = {}
                    [] e.mode = "any" -> \E v \in zs(ins \cup mb) : Abs(v - z[1]) <= 1
                    [] e.mode = "minimum" -> (\E v \in zs(ins \cup mb) : Abs(v - z[1]) <= 1) /\ \A v \in zs(ins) : v >= z[1] - 1
                    [] e.mode = "maximum" -> (\E v \in zs(ins \cup mb) : Abs(v - z[1]) <= 1) /\ \A v \in zs(ins) : v <= z[1] + 1
                    [] OTHER -> \E v \in zs(ins \cup mb) : Abs(v - z[1]) <= 1
         IN IF y.k = "refused"
            THEN (IF e.mode = "exception" /\ \E m \in 1..Len(e.xy) :
                       Cardinality({n \in 1..nt : Meet(<<e.xy[m][1], e.xy[m][2], 0>>, up, w[n]) # "out"}) > 1 THEN {} ELSE {"refused"})
            ELSE IF \A m \in 1..Len(e.xy) : one(e.xy[m], y.z[m]) THEN {} ELSE {"sampled"}
    [] e.q = "line" ->
         LET h(n) == Hit(e.lp, e.lv, w[n], e.seg) IN
         IF y = <<>> THEN (IF \E n \in 1..nt : h(n) = "in" THEN {"missed"} ELSE {})
         ELSE IF \E n \in 1..nt : h(n) # "out" /\ Near(Where(e.lp, e.lv, w[n]), y, 2) THEN {} ELSE {"line"}
    [] e.q = "columns" -> IF y = [n \in 1..Len(e.n) |-> Column(s, e.n[n])] THEN {} ELSE {"columns"}
    [] e.q = "cellface" -> IF y = [n \in 1..Len(e.n) |-> CellFace(s, e.n[n])] THEN {} ELSE {"cell face"}
    [] e.q = "combined" -> IF y = Combined(s, e) THEN {} ELSE {"combined"}
    [] e.q = "which" ->
         LET sizes == [n \in 1..Len(e.list) |-> IF e.list[n] = 0 THEN Len(Whole(s.pt).t) ELSE Len(Whole(e.pool[e.list[n]]).t)]
             upto(n) == Total(SubSeq(sizes, 1, n))
             one(i) == IF i >= upto(Len(sizes)) THEN <<>>
                       ELSE LET k == CHOOSE m \in 1..Len(sizes) : upto(m - 1) <= i /\ i < upto(m) IN <<k - 1, i - upto(k - 1)>>
         IN IF y = [n \in 1..Len(e.n) |-> one(e.n[n])] THEN {} ELSE {"which"}
    [] e.q = "clean" -> IF y = Clean(e.t, e.p) THEN {} ELSE {"clean"}
    [] e.q = "distil" ->
         IF Sound(y) /\ Tris(y) = Tris([t |-> e.t, p |-> e.p]) /\ Len(y.p) = Cardinality(Used([t |-> e.t])) THEN {} ELSE {"distilled"}
    [] OTHER -> {"unknown"}

SurfBad(s, e) ==
  IF e.res.k # "ok" THEN {"failed"} ELSE
  CASE e.op = "new" -> {}
    [] e.op = "build" -> BuildBad(s, e)
    [] e.op = "derive" -> DeriveBad(s, e)
    [] e.op = "change" -> ChangeBad(s, e)
    [] e.op = "store" -> StoreBad(s, e)
    [] e.op = "ask" -> AskBad(s, e)
    [] OTHER -> {"unknown event"}
SurfPost(s, e) ==
  CASE e.op = "new" -> [s EXCEPT !.role = e.role, !.title = e.title, !.em = {<<x[1], x[2]>> : x \in RangeOf(e.em)},
                                 !.xyd = e.xyd, !.zd = e.zd, !.down = e.down, !.off = e.off]
    [] e.op = "build" -> BuildPost(s, e)
    [] e.op = "derive" -> DerivePost(s, e)
    [] e.op = "change" -> ChangePost(s, e)
    [] e.op = "store" -> [s EXCEPT !.src = NoSrc]
    [] OTHER -> s
=============================================================================
