-------------------------------- MODULE Poly --------------------------------
(* Unstructured grids: cells bounded by faces, faces bounded by nodes.       *)
(* Coordinates of nodes are integers, in units of the grid's crs; numbers of *)
(* nodes, faces and cells are from 0.  Volumes are held as 12 times the      *)
(* volume, areas as vectors of twice the area, centres as 1440 (cells) or 12 *)
(* (faces) times the centre, so everything is exact.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

PInit == [on |-> FALSE, shape |-> "", p |-> <<>>, faces |-> <<>>, cells |-> <<>>, hand |-> <<>>, idle |-> <<>>, rh |-> TRUE,
          ud |-> 1, zd |-> 1, ft |-> FALSE, flat |-> TRUE, layers |-> 0, full |-> FALSE, props |-> {}]

\* ---- vectors
Abs(x) == IF x < 0 THEN -x ELSE x
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
By(n, a) == <<n * a[1], n * a[2], n * a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Det(a, b, c) == Dot(a, Cross(b, c))
Zero == <<0, 0, 0>>
RECURSIVE VSum(_)
VSum(q) == IF q = <<>> THEN Zero ELSE Add(Head(q), VSum(Tail(q)))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RangeOf(q) == {q[i] : i \in DOMAIN q}
Norm1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* ---- parts of a grid
Pt(s, n) == s.p[n + 1]
Nodes(s, f) == s.faces[f + 1]
FacesOf(s, c) == s.cells[c + 1]
CellNos(s) == 0..(Len(s.cells) - 1)
FaceNos(s) == 0..(Len(s.faces) - 1)
NodesOfCell(s, c) == UNION {RangeOf(Nodes(s, f)) : f \in RangeOf(FacesOf(s, c))}
Before(q, i) == IF i = 1 THEN q[Len(q)] ELSE q[i - 1]
\* edges of a face, following its nodes, from the edge that ends at its first node
Edges(q) == [i \in 1..Len(q) |-> <<Before(q, i), q[i]>>]
InOrder(e) == IF e[2] < e[1] THEN <<e[2], e[1]>> ELSE e
EdgesOfCell(s, c) == UNION {{InOrder(e) : e \in RangeOf(Edges(Nodes(s, f)))} : f \in RangeOf(FacesOf(s, c))}
Users(s, f, out) == Sorted({c \in CellNos(s) \ out : f \in RangeOf(FacesOf(s, c))})
Pad(q) == q \o [i \in 1..(2 - Len(q)) |-> -1]
WithUsers(s, n, out) == Sorted({f \in FaceNos(s) : Len(Users(s, f, out)) = n})

\* ---- geometry
Points(s, f) == [i \in 1..Len(Nodes(s, f)) |-> Pt(s, Nodes(s, f)[i])]
FaceCentre(s, f) == By(12 \div Len(Nodes(s, f)), VSum(Points(s, f)))                        \* 12 times
MeanOfFaces(s, c) == By(120 \div Len(FacesOf(s, c)), VSum([i \in DOMAIN FacesOf(s, c) |-> FaceCentre(s, FacesOf(s, c)[i])]))     \* 1440 times
\* vector of twice the area, by nodes in order, from a point near the face to keep numbers small
AreaOf(q) == VSum([i \in 1..Len(q) |-> Cross(Sub(Before(q, i), q[1]), Sub(q[i], q[1]))])
Area(s, f) == AreaOf(Points(s, f))
\* a face that is flat
Flat(s, f) == LET q == Points(s, f) IN \A i \in DOMAIN q : Dot(Area(s, f), Sub(q[i], q[1])) = 0
\* the area points out of the cell
Outward(s, c, f) == Dot(Area(s, f), Sub(By(120, FaceCentre(s, f)), MeanOfFaces(s, c))) > 0
\* nodes are in clockwise order seen from within the cell
Clockwise(s, c, f) == Outward(s, c, f) = s.rh
HandOf(s, c) == [i \in DOMAIN FacesOf(s, c) |-> Clockwise(s, c, FacesOf(s, c)[i])]
\* 12 times the volume under a face, from a point; faces of four nodes are bilinear, being the mean of both ways to cut them
Fan(q) == Sum([i \in 1..(Len(q) - 2) |-> Det(q[1], q[i + 1], q[i + 2])])
Under(q) == IF Len(q) = 4 THEN Fan(q) + Fan(<<q[2], q[3], q[4], q[1]>>) ELSE 2 * Fan(q)
FromPoint(q, o) == [i \in DOMAIN q |-> Sub(q[i], o)]
Corner(s, c) == Points(s, FacesOf(s, c)[1])[1]
Volume(s, c) == Sum([i \in DOMAIN FacesOf(s, c) |-> LET f == FacesOf(s, c)[i] IN
                     Under(FromPoint(Points(s, f), Corner(s, c))) * (IF Outward(s, c, f) THEN 1 ELSE -1)])
\* the same in 12ths of cubic tenths of metres, or of feet
TrueVolume(s, c) == Volume(s, c) * s.ud * s.ud * s.zd
FlatCell(s, c) == \A f \in RangeOf(FacesOf(s, c)) : Flat(s, f)
Stretch(s, a) == <<a[1] * s.zd, a[2] * s.zd, a[3] * s.ud>>      \* area vector in true units, up to a factor

\* ---- made from arrays
FromArrays(s, e) == [s EXCEPT !.on = TRUE, !.shape = e.shape, !.p = e.p, !.faces = e.faces, !.cells = e.cells, !.hand = e.hand, !.idle = e.idle,
                              !.rh = e.rh, !.ud = e.ud, !.zd = e.zd, !.ft = e.ft, !.layers = 0, !.full = FALSE, !.props = {}]
Reported(s, o) == [s EXCEPT !.on = TRUE, !.shape = o.shape, !.p = o.p, !.faces = o.faces, !.cells = o.cells, !.hand = o.hand, !.idle = o.idle]
\* a sound grid: indices in range, each face of one cell or two, no more, each edge of a cell in two of its faces
Sound(s) == /\ \A f \in FaceNos(s) : Len(Nodes(s, f)) >= 3 /\ RangeOf(Nodes(s, f)) \subseteq 0..(Len(s.p) - 1) /\ Len(Users(s, f, {})) \in {1, 2}
                                     /\ Cardinality(RangeOf(Nodes(s, f))) = Len(Nodes(s, f))
            /\ \A c \in CellNos(s) : \A d \in EdgesOfCell(s, c) :
                  Cardinality({f \in RangeOf(FacesOf(s, c)) : d \in {InOrder(x) : x \in RangeOf(Edges(Nodes(s, f)))}}) = 2
Handed(s) == \A c \in CellNos(s) : s.hand[c + 1] = HandOf(s, c)

\* ---- made from a grid of pillars without faults
Natural(n, k, j, i) == (k * n[2] + j) * n[3] + i
HexaNode(n, k, j, i) == (k * (n[2] + 1) + j) * (n[3] + 1) + i
SameRound(q, w) == \E d \in 0..(Len(w) - 1) : \/ q = [i \in 1..Len(w) |-> w[1 + ((i - 1 + d) % Len(w))]]
                                              \/ q = [i \in 1..Len(w) |-> w[1 + ((Len(w) - i + d) % Len(w))]]
HexaFaces(n, k, j, i) ==
  LET v(a, b, c) == HexaNode(n, k + a, j + b, i + c) IN
  <<<<v(0, 0, 0), v(0, 0, 1), v(0, 1, 1), v(0, 1, 0)>>, <<v(1, 0, 0), v(1, 0, 1), v(1, 1, 1), v(1, 1, 0)>>,
    <<v(0, 0, 0), v(0, 0, 1), v(1, 0, 1), v(1, 0, 0)>>, <<v(0, 1, 0), v(0, 1, 1), v(1, 1, 1), v(1, 1, 0)>>,
    <<v(0, 0, 0), v(0, 1, 0), v(1, 1, 0), v(1, 0, 0)>>, <<v(0, 0, 1), v(0, 1, 1), v(1, 1, 1), v(1, 0, 1)>>>>
HexaBad(s, e) ==
  LET g == [Reported(s, e.obs) EXCEPT !.rh = e.rh] n == e.n IN
  IF e.res.k # "ok" THEN {"hexa-fails"} ELSE
  IF e.obs.shape # "hexahedral" \/ e.obs.p # e.p \/ Len(e.obs.cells) # n[1] * n[2] * n[3] THEN {"hexa-nodes"} ELSE
  IF \E k \in 0..(n[1] - 1), j \in 0..(n[2] - 1), i \in 0..(n[3] - 1) :
       LET c == Natural(n, k, j, i) w == HexaFaces(n, k, j, i) IN
         \/ Len(FacesOf(g, c)) # 6
         \/ \E m \in 1..6 : ~SameRound(Nodes(g, FacesOf(g, c)[m]), w[m]) THEN {"hexa-faces"} ELSE
  (IF ~Sound(g) THEN {"hexa-sharing"} ELSE {})
  \cup (IF ~Handed(g) THEN {"handedness"} ELSE {})
  \* which cells are inactive may be held by a property of the pillar grid
  \cup (IF e.inherit /\ e.obs.idle # e.idle THEN {"inactive"} ELSE {})
  \cup (IF RangeOf(e.obs.props) # RangeOf(e.props) \/ Len(e.obs.props) # Len(e.props) THEN {"properties"} ELSE {})

\* ---- made from surfaces: columns are the triangles, layers between consecutive surfaces
\* e.z[m][n] is the depth of surface m at node n, or e.none where it is missing
RECURSIVE Depth(_, _, _)
Depth(e, m, n) == IF m = 1 \/ e.z[m][n] # e.none THEN e.z[m][n] ELSE Depth(e, m - 1, n)
PrismBad(s, e) ==
  LET g == Reported(s, e.obs) cols == Len(e.tri) pts == Len(e.xy) IN
  IF e.res.k # "ok" THEN {"prism-fails"} ELSE
  IF e.obs.shape # "prism" \/ Len(e.obs.cells) # cols * (Len(e.z) - 1) \/ e.obs.layers # Len(e.z) - 1 THEN {"prism-counts"} ELSE
  IF Len(e.obs.p) # pts * Len(e.z) \/ \E m \in 1..Len(e.z), n \in 1..pts : e.obs.p[(m - 1) * pts + n] # <<e.xy[n][1], e.xy[n][2], Depth(e, m, n)>> THEN {"prism-nodes"} ELSE
  IF \E k \in 0..(Len(e.z) - 2), t \in 1..cols :
       LET c == k * cols + t - 1 f == FacesOf(g, c)
           up(w) == [i \in DOMAIN w |-> w[i] + k * pts] down(w) == [i \in DOMAIN w |-> w[i] + (k + 1) * pts] IN
         \/ Len(f) # 5 \/ Nodes(g, f[1]) # up(e.tri[t]) \/ Nodes(g, f[2]) # down(e.tri[t])
         \/ \E m \in 1..3 : LET d == Edges(e.tri[t])[m] IN ~SameRound(Nodes(g, f[m + 2]), up(d) \o down(<<d[2], d[1]>>))
  THEN {"prism-faces"} ELSE
  IF ~Sound(g) THEN {"prism-sharing"} ELSE {}

\* ---- asked about the whole
BoxOf(s) == <<[a \in 1..3 |-> MinOf({q[a] : q \in RangeOf(s.p)})], [a \in 1..3 |-> MaxOf({q[a] : q \in RangeOf(s.p)})]>>
Idle(q) == {i \in 0..(Len(q) - 1) : q[i + 1]}
WholeBad(s, e) ==
  LET o == e.obs out == Idle(e.mask) IN
  IF e.res.k # "ok" THEN {"whole-fails"} ELSE
  (IF o.counts # <<Len(s.cells), Len(s.faces), Len(s.p)>> THEN {"counts"} ELSE {})
  \cup (IF o.active # Len(s.cells) - Cardinality(Idle(s.idle)) THEN {"active-count"} ELSE {})
  \cup (IF o.box # BoxOf(s) THEN {"box"} ELSE {})
  \cup (IF o.most # <<MaxOf({Len(q) : q \in RangeOf(s.cells)}), MaxOf({Len(q) : q \in RangeOf(s.faces)})>> THEN {"most"} ELSE {})
  \cup (IF o.users # [f \in 1..Len(s.faces) |-> Pad(Users(s, f - 1, {}))] THEN {"users"} ELSE {})
  \cup (IF o.users_masked # [f \in 1..Len(s.faces) |-> Pad(Users(s, f - 1, out))] THEN {"users-masked"} ELSE {})
  \cup (IF o.external # WithUsers(s, 1, {}) THEN {"external"} ELSE {})
  \cup (IF o.external_masked # WithUsers(s, 1, out) THEN {"external-masked"} ELSE {})
  \cup (IF o.internal_masked # WithUsers(s, 2, out) THEN {"internal-masked"} ELSE {})

\* ---- asked about a cell
\* the quadrilateral face of a pyramid is given first
PyramidOrder(s, q) == LET four(f) == Len(Nodes(s, f)) = 4 IN SelectSeq(q, four) \o SelectSeq(q, LAMBDA f : ~four(f))
FaceOrder(s, c) == IF s.shape = "pyramidal" THEN PyramidOrder(s, FacesOf(s, c)) ELSE FacesOf(s, c)
HandAt(s, c, f) == s.hand[c + 1][CHOOSE i \in DOMAIN FacesOf(s, c) : FacesOf(s, c)[i] = f]
CellCentre(s, c) == IF s.layers > 0 THEN By(240, VSum([i \in 1..6 |-> LET q == Points(s, FacesOf(s, c)[1]) \o Points(s, FacesOf(s, c)[2]) IN q[i]])) ELSE MeanOfFaces(s, c)
CellBad(s, e) ==
  LET o == e.obs c == e.cell q == IF e.plain THEN FacesOf(s, c) ELSE FaceOrder(s, c) IN
  IF e.res.k # "ok" THEN {"cell-fails"} ELSE
  (IF o.count # Len(q) THEN {"face-count"} ELSE {})
  \cup (IF o.faces # q THEN {"faces-of-cell"} ELSE {})
  \cup (IF o.hands # [i \in DOMAIN q |-> HandAt(s, c, q[i])] THEN {"hands-of-cell"} ELSE {})
  \cup (IF o.nodes # Sorted(NodesOfCell(s, c)) THEN {"nodes-of-cell"} ELSE {})
  \cup (IF RangeOf(o.edges) # EdgesOfCell(s, c) \/ Len(o.edges) # Cardinality(EdgesOfCell(s, c)) THEN {"edges-of-cell"} ELSE {})
  \cup (IF o.centres # [i \in DOMAIN q |-> FaceCentre(s, q[i])] THEN {"face-centres"} ELSE {})
  \cup (IF o.centre # CellCentre(s, c) THEN {"centre"} ELSE {})
  \cup (IF e.volume /\ (e.exact \/ FlatCell(s, c)) /\ Abs(o.volume - TrueVolume(s, c)) > 1 THEN {"volume"} ELSE {})
  \cup (IF e.corners /\ o.corners # (IF s.shape = "hexahedral" THEN [i \in 1..8 |-> Pt(s, Sorted(NodesOfCell(s, c))[i])]
                                     ELSE Points(s, FacesOf(s, c)[1]) \o Points(s, FacesOf(s, c)[2])) THEN {"corners"} ELSE {})

\* ---- asked about a face
\* normal, in ten thousandths: along the area, of unit length
Along(n, a) == /\ Norm1(Cross(n, a)) <= 30 * Norm1(a) /\ Dot(n, a) > 0 /\ Abs(Dot(n, n) - 100000000) <= 60000
\* a cutting into triangles of a face of flat nodes: one of its nodes fewer by two, with edges of the face once and others twice
Cuts(tri, q) == LET ed(t) == {{t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]}}
                    round == {{Before(q, i), q[i]} : i \in DOMAIN q}
                    uses(d) == Cardinality({i \in DOMAIN tri : d \in ed(tri[i])}) IN
                /\ Len(tri) = Len(q) - 2
                /\ \A i \in DOMAIN tri : RangeOf(tri[i]) \subseteq RangeOf(q) /\ Cardinality(RangeOf(tri[i])) = 3
                /\ \A d \in UNION {ed(tri[i]) : i \in DOMAIN tri} : uses(d) = (IF d \in round THEN 1 ELSE 2)
                /\ \A d \in round : uses(d) = 1
FaceBad(s, e) ==
  LET o == e.obs q == Nodes(s, e.face) a == Area(s, e.face) IN
  IF e.res.k # "ok" THEN {"face-fails"} ELSE
  (IF o.count # Len(q) \/ o.nodes # q THEN {"nodes-of-face"} ELSE {})
  \cup (IF o.edges # Edges(q) THEN {"edges-of-face"} ELSE {})
  \cup (IF o.ordered # [i \in 1..Len(q) |-> InOrder(Edges(q)[i])] THEN {"edges-in-order"} ELSE {})
  \cup (IF o.centre # FaceCentre(s, e.face) THEN {"face-centre"} ELSE {})
  \cup (IF Flat(s, e.face) /\ ~Along(o.normal, Stretch(s, a)) THEN {"normal"} ELSE {})
  \cup (IF ~Cuts(o.tri, q) THEN {"cut"} ELSE {})
  \* nodes moved to a plane stay where they are when in one already (thousandths)
  \cup (IF Flat(s, e.face) /\ \E i \in DOMAIN q : Norm1(Sub(o.planar[i], By(1000, Pt(s, q[i])))) > 3 THEN {"planar"} ELSE {})
  \* four times the square of the area, when the units are the same
  \cup (IF Flat(s, e.face) /\ s.ud = s.zd /\ \E x \in RangeOf(o.areas) : Abs(x - Dot(a, a)) > 1 THEN {"area"} ELSE {})

\* ---- a cell as tetrahedra
\* o.tets is a list of four triangles with their points, six times and rounded, and of four hands
TetPoints(t) == UNION {RangeOf(t.f[i]) : i \in DOMAIN t.f}
TetRight(s, t) == \A i \in 1..4 : LET q == t.f[i] apex == CHOOSE x \in TetPoints(t) : x \notin RangeOf(q) IN
                    t.h[i] = ((Dot(AreaOf(q), Sub(q[1], apex)) > 0) = s.rh)
TetBad(s, e) ==
  LET o == e.obs c == e.cell
      tri == UNION {{RangeOf(o.tets[n].f[i]) : i \in 1..4} : n \in DOMAIN o.tets}
      uses(x) == {n \in DOMAIN o.tets : \E i \in 1..4 : RangeOf(o.tets[n].f[i]) = x}
      outer == {x \in tri : Cardinality(uses(x)) = 1}
      node(x) == CHOOSE n \in NodesOfCell(s, c) : By(6, Pt(s, n)) = x
      all == {By(6, Pt(s, n)) : n \in NodesOfCell(s, c)}
      list(S) == LET RECURSIVE L(_)
                     L(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o L(T \ {x}) IN L(S)
  IN
  IF e.res.k # "ok" THEN {"tetra-fails"} ELSE
  IF \E n \in DOMAIN o.tets : Len(o.tets[n].f) # 4 \/ Cardinality(TetPoints(o.tets[n])) # 4 \/ Cardinality({RangeOf(o.tets[n].f[i]) : i \in 1..4}) # 4
                              \/ \E i \in 1..4 : Len(o.tets[n].f[i]) # 3 THEN {"tetra-shape"} ELSE
  IF \E x \in tri : Cardinality(uses(x)) > 2 THEN {"tetra-sharing"} ELSE
  IF \E x \in outer : ~(x \subseteq all) THEN {"tetra-outer"} ELSE
  (IF \E f \in RangeOf(FacesOf(s, c)) :
        ~Cuts([i \in DOMAIN list({x \in outer : {node(y) : y \in x} \subseteq RangeOf(Nodes(s, f))}) |->
                 LET x == list({x \in outer : {node(y) : y \in x} \subseteq RangeOf(Nodes(s, f))})[i] q == list({node(y) : y \in x}) IN q], Nodes(s, f))
   THEN {"tetra-outer"} ELSE {})
  \* a face shared by two tetrahedra is held once
  \cup (IF o.counts # <<Cardinality(tri), Cardinality(outer)>> THEN {"tetra-faces"} ELSE {})
  \cup (IF FlatCell(s, c) /\ Abs(o.volume - TrueVolume(s, c)) > 1 THEN {"tetra-volume"} ELSE {})
  \cup (IF e.handed /\ FlatCell(s, c) /\ \E n \in DOMAIN o.tets : ~TetRight(s, o.tets[n]) THEN {"tetra-handedness"} ELSE {})

\* ---- stored and read back
KeptBad(s, e) ==
  LET o == e.obs IN
  IF e.res.k # "ok" THEN {"kept-fails"} ELSE
  (IF o.shape # s.shape THEN {"kept-shape"} ELSE {})
  \cup (IF o.p # s.p THEN {"kept-nodes"} ELSE {})
  \cup (IF o.faces # s.faces THEN {"kept-faces"} ELSE {})
  \cup (IF o.cells # s.cells \/ o.hand # s.hand THEN {"kept-cells"} ELSE {})
  \cup (IF o.idle # s.idle THEN {"kept-inactive"} ELSE {})
  \cup (IF o.layers # s.layers THEN {"kept-layers"} ELSE {})
  \cup (IF o.cls # e.cls THEN {"kept-class"} ELSE {})

\* ---- columns of prisms
ColumnBad(s, e) ==
  LET o == e.obs cols == Len(s.cells) \div s.layers IN
  IF e.res.k # "ok" THEN {"columns-fail"} ELSE
  (IF o.columns # cols THEN {"columns"} ELSE {})
  \cup (IF o.top # [i \in 1..cols |-> FacesOf(s, i - 1)[1]] THEN {"top-faces"} ELSE {})
  \cup (IF o.tri # [i \in 1..cols |-> Nodes(s, FacesOf(s, i - 1)[1])] THEN {"triangulation"} ELSE {})
  \* three times the thickness
  \cup (IF o.thick # [i \in 1..Len(s.cells) |-> LET q == FacesOf(s, i - 1) IN VSum(Points(s, q[2]))[3] - VSum(Points(s, q[1]))[3]] THEN {"thickness"} ELSE {})

PBad(s, e) ==
  CASE e.op = "arrays" -> IF e.res.k = "ok" THEN {} ELSE {"arrays-fail"}
    [] e.op = "hexa" -> HexaBad([s EXCEPT !.rh = e.rh], e)
    [] e.op = "prism" -> PrismBad([s EXCEPT !.rh = e.rh], e)
    [] e.op = "whole" -> WholeBad(s, e)
    [] e.op = "cell" -> CellBad(s, e)
    [] e.op = "face" -> FaceBad(s, e)
    [] e.op = "tetra" -> TetBad(s, e)
    [] e.op = "kept" -> KeptBad(s, e)
    [] e.op = "column" -> ColumnBad(s, e)
    [] e.op = "hands" -> IF e.res.k # "ok" THEN {"hands-fail"} ELSE IF e.obs.hand # [c \in 1..Len(s.cells) |-> HandOf(s, c - 1)] THEN {"hands-set"} ELSE {}
    [] OTHER -> {"unknown-op"}
PPost(s, e) ==
  CASE e.op = "arrays" -> FromArrays(s, e)
    [] e.op = "hexa" -> [Reported(s, e.obs) EXCEPT !.rh = e.rh, !.ud = e.ud, !.zd = e.zd, !.ft = e.ft, !.layers = 0]
    [] e.op = "prism" -> [Reported(s, e.obs) EXCEPT !.rh = e.rh, !.ud = e.ud, !.zd = e.zd, !.ft = e.ft, !.layers = Len(e.z) - 1]
    [] e.op = "hands" -> [s EXCEPT !.hand = e.obs.hand]
    [] OTHER -> s
=============================================================================
