------------------------------- MODULE MCPoly -------------------------------
(* What must follow from the meaning of the parts of an unstructured grid:   *)
(* two boxes side by side, cut into boxes, prisms, pyramids or tetrahedra,   *)
(* then moved, sheared, mirrored, with faces turned round and cells dropped. *)
EXTENDS Poly
CONSTANT MaxSteps
VARIABLES s, vol, n
\* ---- the two boxes: nodes 0..11 at corners, 12 and 13 in the middles
Corners == [m \in 1..12 |-> LET i == m - 1 IN <<2 * (i - 3 * (i \div 3)), 2 * ((i \div 3) - 2 * (i \div 6)), 2 * (i \div 6)>>]
Middles == <<<<1, 1, 1>>, <<3, 1, 1>>>>
Node(x, a, b, c) == (x + a) + 3 * b + 6 * c
Quads(x) == LET v(a, b, c) == Node(x, a, b, c) IN
  <<<<v(0, 0, 0), v(1, 0, 0), v(1, 1, 0), v(0, 1, 0)>>, <<v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1)>>,
    <<v(0, 0, 0), v(1, 0, 0), v(1, 0, 1), v(0, 0, 1)>>, <<v(0, 1, 0), v(1, 1, 0), v(1, 1, 1), v(0, 1, 1)>>,
    <<v(0, 0, 0), v(0, 1, 0), v(0, 1, 1), v(0, 0, 1)>>, <<v(1, 0, 0), v(1, 1, 0), v(1, 1, 1), v(1, 0, 1)>>>>
Tent(q, m) == <<q>> \o [i \in 1..Len(q) |-> <<Before(q, i), q[i], m>>]
Box(x) == <<Quads(x)>>
Pyramids(x) == [i \in 1..6 |-> Tent(Quads(x)[i], 12 + x)]
Wedge(lo, hi) == <<lo, hi>> \o [i \in 1..3 |-> <<Before(lo, i), lo[i], hi[i], Before(hi, i)>>]
Wedges(x) == LET v(a, b, c) == Node(x, a, b, c) IN
  <<Wedge(<<v(0, 0, 0), v(1, 0, 0), v(1, 1, 0)>>, <<v(0, 0, 1), v(1, 0, 1), v(1, 1, 1)>>),
    Wedge(<<v(0, 0, 0), v(1, 1, 0), v(0, 1, 0)>>, <<v(0, 0, 1), v(1, 1, 1), v(0, 1, 1)>>)>>
Tet(a, b, c, d) == <<<<a, b, c>>, <<a, b, d>>, <<a, c, d>>, <<b, c, d>>>>
Tets(x) == LET v(a, b, c) == Node(x, a, b, c) o == v(0, 0, 0) e == v(1, 1, 1) IN
  <<Tet(o, v(1, 0, 0), v(1, 1, 0), e), Tet(o, v(1, 0, 0), v(1, 0, 1), e), Tet(o, v(0, 1, 0), v(1, 1, 0), e),
    Tet(o, v(0, 1, 0), v(0, 1, 1), e), Tet(o, v(0, 0, 1), v(1, 0, 1), e), Tet(o, v(0, 0, 1), v(0, 1, 1), e)>>
Cut(how, x) == CASE how = "box" -> Box(x) [] how = "pyramids" -> Pyramids(x) [] how = "wedges" -> Wedges(x) [] OTHER -> Tets(x)
\* each face is held once
RECURSIVE Collect(_, _)
Collect(q, got) == IF q = <<>> THEN got ELSE
  Collect(Tail(q), IF \E i \in DOMAIN got : RangeOf(got[i]) = RangeOf(Head(q)) THEN got ELSE Append(got, Head(q)))
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
Made(a, b, rh) ==
  LET cells == Cut(a, 0) \o Cut(b, 1)
      faces == Collect(Flatten(cells), <<>>)
      no(f) == (CHOOSE i \in DOMAIN faces : RangeOf(faces[i]) = RangeOf(f)) - 1
      g == [PInit EXCEPT !.on = TRUE, !.shape = "polyhedral", !.p = Corners \o Middles, !.faces = faces, !.rh = rh,
                         !.cells = [c \in DOMAIN cells |-> [i \in DOMAIN cells[c] |-> no(cells[c][i])]], !.idle = [c \in DOMAIN cells |-> FALSE]]
  IN [g EXCEPT !.hand = [c \in DOMAIN cells |-> HandOf(g, c - 1)]]
Pairs == {<<"box", "box">>, <<"box", "wedges">>, <<"wedges", "pyramids">>, <<"pyramids", "box">>, <<"tets", "tets">>}
Init == /\ \E w \in Pairs, rh \in BOOLEAN : s = Made(w[1], w[2], rh)
        /\ vol = 2 * 8 * 12 /\ n = 0
Moved(f(_)) == [s EXCEPT !.p = [i \in DOMAIN s.p |-> f(s.p[i])]]
\* turning a face round changes which hand it is on, for both its cells
TurnFace(f) == [s EXCEPT !.faces[f + 1] = [i \in DOMAIN @ |-> @[Len(@) + 1 - i]],
                         !.hand = [c \in DOMAIN s.hand |-> [i \in DOMAIN s.hand[c] |-> s.hand[c][i] # (s.cells[c][i] = f)]]]
\* starting from another of its nodes does not
RollFace(f) == [s EXCEPT !.faces[f + 1] = Tail(@) \o <<Head(@)>>]
AllHands(q) == [q EXCEPT !.hand = [c \in DOMAIN @ |-> [i \in DOMAIN @[c] |-> ~@[c][i]]]]
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E f \in {0, Len(s.faces) \div 2, Len(s.faces) - 1} : s' = TurnFace(f) /\ UNCHANGED vol
           \/ \E f \in {0, 3} : s' = RollFace(f) /\ UNCHANGED vol
           \/ s' = Moved(LAMBDA q : <<q[1] + 3 * q[2] - 4, q[2] - q[3], q[3] + 5>>) /\ UNCHANGED vol               \* sheared
           \/ s' = AllHands(Moved(LAMBDA q : <<q[2], q[1], q[3]>>)) /\ UNCHANGED vol                               \* mirrored
           \/ s' = Moved(LAMBDA q : <<q[2], q[3], q[1]>>) /\ UNCHANGED vol                                         \* turned
           \/ s' = AllHands(Moved(LAMBDA q : <<2 * q[1], q[2], 0 - q[3]>>)) /\ vol' = 2 * vol                      \* stretched and upside down
           \/ s' = AllHands([s EXCEPT !.rh = ~@]) /\ UNCHANGED vol
Spec == Init /\ [][Next]_<<s, vol, n>>
\* ---- each cell is closed: the nodes of its faces, the right way round, go along each edge once in each direction
Outer(c, f) == IF Outward(s, c, f) THEN Nodes(s, f) ELSE [i \in DOMAIN Nodes(s, f) |-> Nodes(s, f)[Len(Nodes(s, f)) + 1 - i]]
Closed(c) == LET fs == RangeOf(FacesOf(s, c)) IN
  /\ \A f \in fs : \A e \in RangeOf(Edges(Outer(c, f))) : Cardinality({g \in fs : <<e[2], e[1]>> \in RangeOf(Edges(Outer(c, g)))}) = 1
  /\ VSum([i \in DOMAIN FacesOf(s, c) |-> By(IF Outward(s, c, FacesOf(s, c)[i]) THEN 1 ELSE -1, Area(s, FacesOf(s, c)[i]))]) = Zero
Euler(c) == Cardinality(NodesOfCell(s, c)) - Cardinality(EdgesOfCell(s, c)) + Len(FacesOf(s, c)) = 2
OutsideArea == LET q == WithUsers(s, 1, {}) IN
  VSum([i \in DOMAIN q |-> By(IF Outward(s, Users(s, q[i], {})[1], q[i]) THEN 1 ELSE -1, Area(s, q[i]))])
\* a fan from its first node is a cutting of a face; one triangle fewer or another in its place is not
FanOf(q) == [i \in 1..(Len(q) - 2) |-> <<q[1], q[i + 1], q[i + 2]>>]
Inv == /\ Sound(s)
       /\ Handed(s)
       /\ \A c \in CellNos(s) : Closed(c) /\ Euler(c) /\ FlatCell(s, c) /\ Volume(s, c) > 0
       /\ Sum([c \in DOMAIN s.cells |-> Volume(s, c - 1)]) = vol
       \* the two cells of a face see it from opposite sides
       /\ \A f \in FaceNos(s) : LET u == Users(s, f, {}) IN Len(u) = 2 => HandAt(s, u[1], f) # HandAt(s, u[2], f)
       /\ OutsideArea = Zero
       /\ Len(WithUsers(s, 1, {})) + Len(WithUsers(s, 2, {})) = Len(s.faces)
       /\ Sum([c \in DOMAIN s.cells |-> Len(s.cells[c])]) = Len(WithUsers(s, 1, {})) + 2 * Len(WithUsers(s, 2, {}))
       \* dropping a cell: its faces that were within are now outside, and those outside are gone
       /\ \A c \in {0, Len(s.cells) - 1} : RangeOf(WithUsers(s, 1, {c})) =
             (RangeOf(WithUsers(s, 1, {})) \ RangeOf(FacesOf(s, c))) \cup (RangeOf(FacesOf(s, c)) \cap RangeOf(WithUsers(s, 2, {})))
       /\ \A f \in {0, Len(s.faces) - 1} : LET q == Nodes(s, f) IN Cuts(FanOf(q), q) /\ (Len(q) = 4 => ~Cuts(<<FanOf(q)[1], FanOf(q)[1]>>, q))
                                           /\ (Len(q) = 4 => ~Cuts(<<<<q[1], q[2], q[3]>>, <<q[2], q[3], q[4]>>>>, q))
       \* the volume does not depend on where faces are seen from
       /\ \A c \in {0} : Volume(s, c) = Sum([i \in DOMAIN FacesOf(s, c) |-> LET f == FacesOf(s, c)[i] IN
                     Under(FromPoint(Points(s, f), Pt(s, 11))) * (IF Outward(s, c, f) THEN 1 ELSE -1)])
=============================================================================
