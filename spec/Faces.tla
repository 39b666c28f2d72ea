------------------------------ MODULE Faces ------------------------------
(* Faces of grid cells representing a triangulated surface.  A face between *)
(* two cells is in the set when the line between the centres of the cells   *)
(* passes through a triangle.  Lengths are integers; the surface and the    *)
(* grid are so arranged that no centre line touches an edge of a triangle   *)
(* and no cell centre is on the surface, so every test is exact.            *)
(* Indices of cells are <<k, j, i>> from 0; axes are 1 for K, 2 for J and 3 *)
(* for I; a face is <<axis, k, j, i>> of the cell on its lower side.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FInit == [n |-> <<0, 0, 0>>, cx |-> <<>>, cy |-> <<>>, cz |-> <<>>, thr |-> <<>>, plain |-> TRUE,
          xyd |-> 1, zd |-> 1, zoff |-> 0, down |-> TRUE, tri |-> <<>>, sheet |-> FALSE, hit |-> <<>>]

\* ---- little things
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RangeOf(q) == {q[i] : i \in DOMAIN q}
\* quotient rounded down, for any sign of divisor
Quo(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))

\* ---- grid
Cells(n) == (0..(n[1] - 1)) \X (0..(n[2] - 1)) \X (0..(n[3] - 1))
Up(c, a) == [c EXCEPT ![a] = @ + 1]
Down(c, a) == [c EXCEPT ![a] = @ - 1]
LowCell(f) == <<f[2], f[3], f[4]>>
HighCell(f) == Up(LowCell(f), f[1])
FaceOf(a, c) == <<a, c[1], c[2], c[3]>>
FacesIn(n, a) == {FaceOf(a, c) : c \in {c \in Cells(n) : c[a] < n[a] - 1}}
AllFaces(n) == UNION {FacesIn(n, a) : a \in 1..3}
Centre(s, c) == <<s.cx[c[3] + 1], s.cy[c[2] + 1], s.cz[c[1] + 1] + s.thr[c[2] + 1][c[3] + 1]>>

\* ---- crossing of a line between centres with a triangle
Plane(t) == Cross(Sub(t[2], t[1]), Sub(t[3], t[1]))
Side(t, p) == Dot(Plane(t), Sub(p, t[1]))
Vol(p, q, a, b) == Dot(Cross(Sub(q, p), Sub(a, p)), Sub(b, p))
Crosses(p, q, t) ==
  /\ Side(t, p) * Sign(Side(t, q)) < 0
  /\ LET u == Sign(Vol(p, q, t[1], t[2])) IN Sign(Vol(p, q, t[2], t[3])) = u /\ Sign(Vol(p, q, t[3], t[1])) = u
HitsOf(s, tri, f) == LET p == Centre(s, LowCell(f)) q == Centre(s, HighCell(f)) IN
                     {n \in 1..Len(tri) : Crosses(p, q, tri[n])}
AllHits(s, tri) == [f \in AllFaces(s.n) |-> HitsOf(s, tri, f)]
FaceSet(s) == {f \in AllFaces(s.n) : s.hit[f] # {}}
\* surface regarded as a curtain: what it does in the top layer, in every layer
CurtainHits(s, f) == s.hit[<<f[1], 0, f[3], f[4]>>]
CurtainSet(s) == {f \in AllFaces(s.n) : f[1] # 1 /\ CurtainHits(s, f) # {}}
\* hundredths along the centre line from the lower cell centre to the crossing
Along(s, f, n) == LET p == Centre(s, LowCell(f)) q == Centre(s, HighCell(f)) t == s.tri[n]
                      a == Side(t, p) b == Side(t, q) x == 4 - f[1]
                  IN Quo(100 * (q[x] - p[x]) * a, a - b)
OffsetAt(s, f, n) == LET x == 4 - f[1] w == Centre(s, HighCell(f))[x] - Centre(s, LowCell(f))[x]
                         e == Along(s, f, n) - 50 * w
                     IN IF f[1] = 1 THEN e ELSE (e * s.zd) \div s.xyd
DepthAt(s, f, n) == LET z == Centre(s, LowCell(f))[3] IN IF f[1] = 1 THEN 100 * z + Along(s, f, n) ELSE 100 * z
Close(x, y) == Abs(x - y) <= 1
CloseOff(s, f, x, y) == Abs(x - y) <= (IF f[1] = 1 \/ s.zd <= s.xyd THEN 1 ELSE 1 + s.zd \div s.xyd)

\* ---- parting of the cells
Open(fs, a, c) == FaceOf(a, c) \notin fs
Next1(n, fs, c) == {Up(c, a) : a \in {a \in 1..3 : c[a] < n[a] - 1 /\ FaceOf(a, c) \notin fs}} \cup
                   {Down(c, a) : a \in {a \in 1..3 : c[a] > 0 /\ FaceOf(a, Down(c, a)) \notin fs}}
RECURSIVE Grow(_, _, _, _)
Grow(n, fs, got, new) == IF new = {} THEN got
                         ELSE LET m == UNION {Next1(n, fs, c) : c \in new} \ got IN Grow(n, fs, got \cup m, m)
Reach(n, fs) == Grow(n, fs, {<<0, 0, 0>>}, {<<0, 0, 0>>})
LayerOf(cs, k) == {<<c[2], c[3]>> : c \in {c \in cs : c[1] = k}}
Upright(n, cs) == \A k \in 0..(n[1] - 1) : LayerOf(cs, k) = LayerOf(cs, 0)
RECURSIVE SumK(_)
SumK(cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE c \in cs : TRUE IN c[1] + SumK(cs \ {c})
\* shallower of the two parts; the part of the first cell where neither is
Shallower(n, cs) == LET r == Cells(n) \ cs IN
                    IF SumK(cs) * Cardinality(r) > SumK(r) * Cardinality(cs) THEN r ELSE cs
Bisected(n, fs, raw) ==
  LET cs == Reach(n, fs) IN
  IF cs = Cells(n) THEN [k |-> "leaky", cells |-> {}, up |-> FALSE]
  ELSE LET w == IF raw THEN cs ELSE Shallower(n, cs) IN [k |-> "cut", cells |-> w, up |-> Upright(n, w)]
ColumnReach(n, fs) == LayerOf(Reach(<<1, n[2], n[3]>>, {f \in fs : f[2] = 0}), 0)
Shadow(fs, c) == LET below == \E f \in fs : f[1] = 1 /\ f[3] = c[2] /\ f[4] = c[3] /\ f[2] >= c[1]
                     above == \E f \in fs : f[1] = 1 /\ f[3] = c[2] /\ f[4] = c[3] /\ f[2] < c[1]
                 IN IF above /\ below THEN 3 ELSE IF above THEN 2 ELSE IF below THEN 1 ELSE 0
ShadowIs(n, fs, a) == \A c \in Cells(n) : a[c[1] + 1][c[2] + 1][c[3] + 1] = Shadow(fs, c)
CellsIn(n, a) == {c \in Cells(n) : a[c[1] + 1][c[2] + 1][c[3] + 1] = 1}
ColumnsIn(n, a) == {c \in (0..(n[2] - 1)) \X (0..(n[3] - 1)) : a[c[1] + 1][c[2] + 1] = 1}

\* ---- what a search gave
FaceRec(r) == <<r.f[1], r.f[2], r.f[3], r.f[4]>>
Reported(fr) == {FaceRec(fr[i]) : i \in DOMAIN fr}
CellT(q) == <<q[1], q[2], q[3]>>
PairsRight(fr) == \A i \in DOMAIN fr : LET f == FaceRec(fr[i]) IN
                    {CellT(fr[i].a), CellT(fr[i].b)} = {LowCell(f), HighCell(f)}
HitFor(s, e, f) == IF e.curtain THEN CurtainHits(s, f) ELSE s.hit[f]
\* face of the top layer, for a curtain, carrying the depth of its own layer
AsHit(s, e, f) == IF e.curtain THEN <<f[1], 0, f[3], f[4]>> ELSE f
ValuesRight(s, e, r) ==
  LET f == FaceRec(r) h == HitFor(s, e, f) g == AsHit(s, e, f) IN
  /\ e.tri => (r.tri + 1) \in h
  /\ \E n \in (IF e.tri THEN {r.tri + 1} ELSE h) :
       /\ e.off => CloseOff(s, f, r.off, OffsetAt(s, g, n))
       /\ e.depth => Close(r.depth, IF e.curtain THEN DepthAt(s, f, 1) ELSE DepthAt(s, f, n))
\* normal, in thousandths, of a triangle crossing, in true lengths, pointing to lesser z
TrueNormal(s, t) == LET m == Plane(t) IN <<m[1] * s.xyd, m[2] * s.xyd, m[3] * s.zd>>
NormalOk(s, f, v) == \E n \in s.hit[f] :
  LET m == TrueNormal(s, s.tri[n]) x == Cross(v, m)
      big == 3 * (Abs(m[1]) + Abs(m[2]) + Abs(m[3])) IN
  /\ Abs(x[1]) <= big /\ Abs(x[2]) <= big /\ Abs(x[3]) <= big
  /\ Abs(Dot(v, v) - 1000000) <= 6000
  /\ v[3] <= 0
  /\ m[3] # 0 => Sign(Dot(v, m)) = -Sign(m[3])
\* all first cells on one side of a sheet
SidesRight(s, fr) ==
  \E g \in {-1, 1} : \A i \in DOMAIN fr :
     LET f == FaceRec(fr[i]) IN
     \E n \in s.hit[f] : Sign(Side(s.tri[n], Centre(s, CellT(fr[i].a)))) = g

BadFind(s, e) ==
  LET want == IF e.curtain THEN CurtainSet(s) ELSE FaceSet(s) r == e.res fr == e.obs.faces IN
  IF want = {} /\ (e.how = "optimised" \/ (e.how = "auto" /\ s.plain))
  THEN (IF r.k = "none" THEN {} ELSE {"faces-of-surface-away"})
  ELSE IF e.bis /\ r.k = "err:AssertionError"
  THEN (IF Bisected(s.n, want, e.raw).k = "leaky" /\ ~e.curtain THEN {} ELSE {"not-bisected"})
  ELSE IF r.k # "ok" THEN {"find-fails"}
  ELSE (IF Reported(fr) = want THEN {} ELSE {"faces"})
    \cup (IF Len(fr) = Cardinality(Reported(fr)) THEN {} ELSE {"face-twice"})
    \cup (IF PairsRight(fr) THEN {} ELSE {"cells-of-face"})
    \cup (IF Reported(fr) # want THEN {}
          ELSE (IF \A i \in DOMAIN fr : ValuesRight(s, e, fr[i]) THEN {} ELSE {"values-at-faces"})
          \cup (IF e.normal => \A i \in DOMAIN fr : NormalOk(s, FaceRec(fr[i]), fr[i].normal) THEN {} ELSE {"normals-at-faces"})
          \cup (IF e.sides /\ s.sheet => SidesRight(s, fr) THEN {} ELSE {"sides"}))
    \cup (IF ~e.bis THEN {}
          ELSE IF e.curtain
          THEN (IF e.obs.up /\ ColumnsIn(s.n, e.obs.bis) = ColumnReach(s.n, want) THEN {} ELSE {"column-bisector"})
          ELSE LET b == Bisected(s.n, want, e.raw) IN
               IF b.k = "leaky" THEN {"bisector-of-leaky"}
               ELSE IF e.obs.up # b.up THEN {"bisector-curtain"}
               ELSE IF b.up THEN (IF ColumnsIn(s.n, e.obs.bis) = LayerOf(b.cells, 0) THEN {} ELSE {"bisector"})
               ELSE (IF CellsIn(s.n, e.obs.bis) = b.cells THEN {} ELSE {"bisector"}))
    \cup (IF e.shadow => ShadowIs(s.n, want, e.obs.shadow) THEN {} ELSE {"shadow"})

\* ---- sets of faces given directly
Given(e) == {<<e.faces[i][1], e.faces[i][2], e.faces[i][3], e.faces[i][4]>> : i \in DOMAIN e.faces}
BadCut(e) ==
  LET fs == Given(e) b == Bisected(e.n, fs, e.raw) IN
  IF fs = {} THEN {}
  ELSE IF e.res.k = "err:AssertionError" THEN (IF b.k = "leaky" THEN {} ELSE {"not-bisected"})
  ELSE IF e.res.k # "ok" THEN {"bisect-fails"}
  ELSE IF b.k = "leaky" THEN {"bisector-of-leaky"}
  ELSE (IF CellsIn(e.n, e.obs.bis) = b.cells THEN {} ELSE {"bisector"})
    \cup (IF e.obs.up = b.up THEN {} ELSE {"bisector-curtain"})
BadColumns(e) == IF e.res.k # "ok" THEN {"bisect-fails"}
                 ELSE IF ColumnsIn(e.n, e.obs.bis) = ColumnReach(e.n, Given(e)) THEN {} ELSE {"column-bisector"}
BadShadow(e) == IF e.res.k # "ok" THEN {"shadow-fails"}
                ELSE IF ShadowIs(e.n, Given(e), e.obs.shadow) THEN {} ELSE {"shadow"}

\* ---- stored by the function for many surfaces at once
BadStored(s, e) ==
  LET want == IF e.curtain THEN CurtainSet(s) ELSE FaceSet(s) r == e.res fr == e.obs.faces
      \* depths are kept with z increasing downwards from the datum
      back(z) == (IF s.down THEN z ELSE -z) - 100 * s.zoff
      local == [e EXCEPT !.obs.faces = [i \in DOMAIN fr |-> [fr[i] EXCEPT !.depth = back(@)]]]
  IN
  IF want = {} THEN (IF r.k = "unsuccessful" THEN {} ELSE {"stored-without-faces"})
  ELSE BadFind(s, IF e.depth THEN local ELSE e)
    \cup (IF r.k = "ok" /\ (e.shadow \/ e.bis) => e.obs.related THEN {} ELSE {"not-related"})

FBad(s, e) ==
  CASE e.op = "find" -> BadFind(s, e)
    [] e.op = "cut" -> BadCut(e)
    [] e.op = "columns" -> BadColumns(e)
    [] e.op = "shadow" -> BadShadow(e)
    [] e.op = "stored" -> BadStored(s, e)
    [] OTHER -> IF e.res.k = "ok" THEN {} ELSE {"setup"}

FPost(s, e) ==
  CASE e.op = "grid" -> [s EXCEPT !.n = CellT(e.n), !.cx = e.cx, !.cy = e.cy, !.cz = e.cz, !.thr = e.thr, !.plain = e.plain,
                         !.xyd = e.xyd, !.zd = e.zd, !.zoff = e.zoff, !.down = e.down, !.tri = <<>>, !.hit = <<>>]
    [] e.op = "surf" -> [s EXCEPT !.tri = e.tri, !.sheet = e.sheet, !.hit = AllHits(s, e.tri)]
    [] OTHER -> s
=============================================================================
