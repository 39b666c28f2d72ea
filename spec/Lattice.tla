----------------------------- MODULE Lattice -----------------------------
(* Meshes (rows of points, all of one length) and sets of points, held in a  *)
(* model.  Coordinates are in eighths; a z value that is not a number is     *)
(* given as Gone.  Each event makes an object, changes one, stores one and   *)
(* reads it back, or asks about one.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gone == -77777
\* off, down: the offsets and z direction of each coordinate reference system
LatticeInit == [o |-> <<>>, crs |-> <<>>, seen |-> {}]

Last(q) == q[Len(q)]
RangeOf(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* ---- meshes: point n (from 1) of a mesh with rows of ni points is at row (n - 1) \div ni
RowOf(n, ni) == (n - 1) \div ni
ColOf(n, ni) == (n - 1) % ni
\* o + i * di + j * dj
Regular(nj, ni, o, d) == [n \in 1..nj * ni |-> [c \in 1..3 |-> o[c] + ColOf(n, ni) * d[1][c] + RowOf(n, ni) * d[2][c]]]
WithZ(p, z) == [n \in 1..Len(p) |-> <<p[n][1], p[n][2], z[n]>>]
FlatZ(p) == [n \in 1..Len(p) |-> <<p[n][1], p[n][2], 0>>]
Plan(p) == [n \in 1..Len(p) |-> <<p[n][1], p[n][2]>>]
\* values of a file, in the order they stand in the file: zmap goes down each column of points from
\* the greatest y, rms goes along each row from the least y
FileMesh(e) ==
  [n \in 1..e.nj * e.ni |->
     LET j == RowOf(n, e.ni)  i == ColOf(n, e.ni) IN
     IF e.fmt = "zmap" THEN <<e.x[1] + i * e.step[1], e.x[4] - j * e.step[2], e.v[i * e.nj + j + 1]>>
     ELSE <<e.x[1] + i * e.step[1], e.x[3] + j * e.step[2], e.v[j * e.ni + i + 1]>>]
MeshOf(s, e) ==
  CASE e.how = "explicit" -> e.p
    [] e.how = "regular" -> Regular(e.nj, e.ni, e.o, e.d)
    [] e.how = "reg&z" -> WithZ(Regular(e.nj, e.ni, e.o, e.d), e.z)
    [] e.how = "ref&z" -> WithZ(s.o[e.of].p, e.z)
    [] e.how = "file" -> IF e.fl = "regular" THEN FlatZ(FileMesh(e)) ELSE FileMesh(e)
    \* column property of a regular grid: points are at the middles of the columns
    [] e.how = "column" -> WithZ(Regular(e.nj, e.ni, <<e.dx \div 2, e.dy \div 2, 0>>, << <<e.dx, 0, 0>>, <<0, e.dy, 0>> >>), e.z)
    [] OTHER -> <<>>
Flavour(e) == CASE e.how = "file" -> e.fl [] e.how = "column" -> "reg&z" [] OTHER -> e.how
MeshBad(s, e) ==
  (IF e.obs.p = MeshOf(s, e) THEN {} ELSE {"points of mesh"})
  \cup (IF e.obs.fl = Flavour(e) THEN {} ELSE {"flavour"})
  \cup (IF <<e.obs.nj, e.obs.ni>> = <<e.nj, e.ni>> THEN {} ELSE {"extent"})
  \cup (IF e.how # "column" \/ e.obs.unit = e.unit THEN {} ELSE {"units"})

\* ---- sets of points: a list of patches
Pts(x) == Flat(x.pt)
\* points of closed lines that end where they began: that point comes once
Open(q) == IF q.closed /\ Len(q.p) > 1 /\ q.p[1] = Last(q.p) THEN SubSeq(q.p, 1, Len(q.p) - 1) ELSE q.p
Shifted(a, b, x) == LET z == a.off[3] + x[3]
                        y == IF a.down = b.down THEN z ELSE -z
                    IN <<x[1] + a.off[1] - b.off[1], x[2] + a.off[2] - b.off[2], y - b.off[3]>>
InBox(b, x) == \A c \in 1..3 : b[1][c] <= x[c] /\ x[c] <= b[2][c]
Clock(a, b, c) == (c[1] - a[1]) * (b[2] - a[2]) - (c[2] - a[2]) * (b[1] - a[1])
InPoly(g, x) == Cardinality({Sgn(Clock(g[i], g[(i % Len(g)) + 1], x)) : i \in 1..Len(g)}) = 1
SetOf(s, e) ==
  CASE e.how = "array" -> << e.p >>
    [] e.how = "line" -> << e.lines[1].p >>
    [] e.how = "lines" -> << Flat([n \in 1..Len(e.lines) |->
                                    LET q == Open(e.lines[n]) IN
                                    [m \in 1..Len(q) |-> Shifted(s.crs[e.lines[n].crs], s.crs[e.lines[1].crs], q[m])]]) >>
    \* a file written by the software, or with the marker for the end of data after it
    [] e.how \in {"irap", "charisma"} -> << e.p >>
    [] OTHER -> <<>>
Changed(s, e) ==
  LET x == s.o[e.n] IN
  CASE e.how = "add" -> [x EXCEPT !.pt = Append(@, e.p)]
    [] e.how = "box" -> [x EXCEPT !.pt = << SelectSeq(Pts(x), LAMBDA q : InBox(e.box, q)) >>]
    [] e.how = "polygon" -> [x EXCEPT !.pt = << SelectSeq(Pts(x), LAMBDA q : InPoly(e.poly, q)) >>]
    [] e.how = "crs" -> [x EXCEPT !.pt = [n \in 1..Len(x.pt) |-> [m \in 1..Len(x.pt[n]) |-> Shifted(s.crs[x.crs], s.crs[e.to], x.pt[n][m])]], !.crs = e.to]
    [] OTHER -> x
\* extents, doubled for bearings of 0 and 90 degrees and times the root of two for 45 and 135
Wide(p, b) == LET f(x) == CASE b = 0 -> 2 * x[2] [] b = 90 -> 2 * x[1] [] b = 45 -> x[1] + x[2] [] OTHER -> x[2] - x[1]
                  S == {f(x) : x \in RangeOf(p)}
              IN MaxOf(S) - MinOf(S)
Turn(b) == (b + 90) % 180
\* four times the square of the extent
Along(p, b) == LET w == Wide(p, b) IN IF b \in {0, 90} THEN w * w ELSE 2 * w * w
Area4(p, b) == Wide(p, b) * Wide(p, Turn(b)) * (IF b \in {0, 90} THEN 1 ELSE 2)

\* ---- stored and read back: what is read is what was there; the same object, of the same name
StoreBad(s, e) ==
  LET x == s.o[e.n] IN
  (IF x.k = "mesh" /\ e.xy THEN (IF Plan(e.obs.p) = Plan(x.p) THEN {} ELSE {"plan of mesh as stored"})
   ELSE IF x.k = "mesh" THEN (IF e.obs.p = x.p THEN {} ELSE {"mesh as stored"})
   ELSE IF e.obs.pt = x.pt THEN {} ELSE {"points as stored"})
  \cup (IF e.obs.fl = x.fl THEN {} ELSE {"flavour as stored"})
  \cup (IF e.obs.title = x.title THEN {} ELSE {"title as stored"})
  \cup (IF e.obs.role = x.role THEN {} ELSE {"role as stored"})
  \cup (IF e.obs.crs = x.crs THEN {} ELSE {"crs as stored"})
  \* a mesh that takes its plan from another is related to it
  \cup (IF x.of = 0 \/ e.obs.rel THEN {} ELSE {"relationship"})

AskBad(s, e) ==
  LET x == s.o[e.n] IN
  CASE e.q = "points" -> IF e.obs = (IF x.k = "mesh" THEN x.p ELSE Pts(x)) THEN {} ELSE {"points"}
    [] e.q = "patch" -> IF e.obs = x.pt[e.m] THEN {} ELSE {"patch"}
    \* which corners of a cut are joined is for the surface to choose: points only
    [] e.q = "surface" -> IF RangeOf(x.p) \subseteq RangeOf(e.obs.p) /\ e.obs.crs = x.crs
                             /\ e.obs.nt = (x.nj - 1) * (x.ni - 1) * (IF e.quad THEN 4 ELSE 2) THEN {} ELSE {"surface"}
    [] e.q = "rectangle" ->
         LET p == Pts(x)  a == e.obs IN
         IF a[3] \notin RangeOf(e.angles) THEN {"bearing"}
         ELSE IF a[2] # Along(p, a[3]) \/ a[1] # Along(p, Turn(a[3])) \/ a[1] > a[2] THEN {"sides"}
         \* no other of those bearings has a smaller area
         ELSE IF \A b \in RangeOf(e.angles) : Area4(p, a[3]) <= Area4(p, b) THEN {} ELSE {"area"}
    [] e.q = "file" -> IF e.obs = Pts(x) THEN {} ELSE {"file"}
    [] OTHER -> {"unknown"}

LatticeBad(s, e) ==
  IF e.res.k # "ok" THEN {"failed"} ELSE
  CASE e.op = "crs" -> {}
    [] e.op = "mesh" -> MeshBad(s, e)
    [] e.op = "set" -> (IF e.obs = SetOf(s, e) THEN {} ELSE {"points of set"})
    [] e.op = "change" -> (IF e.obs = Changed(s, e).pt THEN {} ELSE {"points changed"})
    [] e.op = "store" -> StoreBad(s, e)
    [] e.op = "ask" -> AskBad(s, e)
    [] OTHER -> {"unknown event"}
LatticePost(s, e) ==
  CASE e.op = "crs" -> [s EXCEPT !.crs = Append(@, [off |-> e.off, down |-> e.down])]
    [] e.op = "mesh" -> [s EXCEPT !.o = Append(@, [k |-> "mesh", p |-> MeshOf(s, e), pt |-> <<>>, fl |-> Flavour(e), nj |-> e.nj, ni |-> e.ni,
                                                   title |-> e.title, role |-> e.role, crs |-> e.crs,
                                                   of |-> IF e.how = "ref&z" THEN e.of ELSE 0])]
    [] e.op = "set" -> [s EXCEPT !.o = Append(@, [k |-> "set", p |-> <<>>, pt |-> SetOf(s, e), fl |-> "", nj |-> 0, ni |-> 0,
                                                  title |-> e.title, role |-> "", crs |-> e.crs, of |-> 0])]
    [] e.op = "change" -> [s EXCEPT !.o[e.n] = Changed(s, e)]
    [] e.op = "store" -> IF s.o[e.n].k = "mesh" /\ e.xy THEN [s EXCEPT !.o[e.n].p = FlatZ(@)] ELSE s
    [] OTHER -> s
=============================================================================
