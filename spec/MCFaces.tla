------------------------------ MODULE MCFaces ------------------------------
(* What must follow from the meaning of the face set: a sheet over the whole *)
(* of a grid parts it into the cells above and the cells below; going round  *)
(* any four cells meets an even number of crossings; a closed surface has    *)
(* the same cells within whichever way they are sought; the shadow of the K  *)
(* faces agrees with the sides.                                              *)
EXTENDS Faces
CONSTANT MaxSteps
VARIABLES h, ball, n
Nn == <<3, 2, 2>>
Base == [FInit EXCEPT !.n = Nn, !.cx = <<2, 6>>, !.cy = <<2, 6>>, !.cz = <<2, 6, 10>>, !.thr = <<<<0, 0>>, <<0, 0>>>>]
\* a sheet over nine points, away from the centre lines; heights are h, so that no centre is on it
Px == <<-3, 5, 11>>
Py == <<-5, 3, 12>>
Pt(a, b) == <<Px[a], Py[b], h[3 * (a - 1) + b]>>
Sheet == LET cell(a, b) == <<<<Pt(a, b), Pt(a + 1, b), Pt(a, b + 1)>>, <<Pt(a, b + 1), Pt(a + 1, b), Pt(a + 1, b + 1)>>>> IN
         cell(1, 1) \o cell(1, 2) \o cell(2, 1) \o cell(2, 2)
Octa == LET c == <<ball[1], ball[2], ball[3]>> w == ball[4]
            \* each corner moved a little to one side
            v(a, d) == [[c EXCEPT ![a] = @ + d * w] EXCEPT ![1 + (a % 3)] = @ + d, ![1 + ((a + 1) % 3)] = @ + 1] IN
        [m \in 1..8 |-> <<v(1, IF m \in {1, 2, 3, 4} THEN 1 ELSE -1), v(2, IF m \in {1, 2, 5, 6} THEN 1 ELSE -1), v(3, IF m % 2 = 1 THEN 1 ELSE -1)>>]
\* no line between centres touches an edge or ends on a triangle
Clear(tri) == \A f \in AllFaces(Nn) : LET p == Centre(Base, LowCell(f)) q == Centre(Base, HighCell(f)) IN
  \A m \in 1..Len(tri) : LET t == tri[m] u == {Sign(Vol(p, q, t[1], t[2])), Sign(Vol(p, q, t[2], t[3])), Sign(Vol(p, q, t[3], t[1]))} IN
     \/ {-1, 1} \subseteq u
     \/ Side(t, p) * Sign(Side(t, q)) > 0
     \/ 0 \notin u /\ Side(t, p) # 0 /\ Side(t, q) # 0
Init == h \in {[i \in 1..9 |-> 7 + (i % 2)], [i \in 1..9 |-> 3], [i \in 1..9 |-> 2 * i - 6]} /\ ball \in {<<3, 3, 5, 7>>, <<3, 5, 7, 5>>} /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E i \in 1..9, d \in {4} : h' = [h EXCEPT ![i] = @ + d] /\ UNCHANGED ball
           \/ \E i \in 1..4, d \in {1} : ball' = [ball EXCEPT ![i] = @ + d] /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, ball, n>>
\* ---- crossings of the centre line of a column with the sheet, above a cell
HitK(st, j, i) == {k \in 0..(Nn[1] - 2) : st.hit[<<1, k, j, i>>] # {}}
\* depth of the sheet at the centre of a column, compared with a cell: below it when positive
Over(tri, c) == LET p == Centre(Base, c) IN
  \E m \in 1..Len(tri) : LET t == tri[m] q == <<p[1], p[2], p[3] + 1>>
                             u == {Sign(Vol(p, q, t[1], t[2])), Sign(Vol(p, q, t[2], t[3])), Sign(Vol(p, q, t[3], t[1]))} IN
     Cardinality(u) = 1 /\ u # {0} /\ Sign(Side(t, p)) # Sign(Plane(t)[3])     \* the sheet is deeper than the cell
SquareFaces(a, b, c) == <<FaceOf(a, c), FaceOf(b, Up(c, a)), FaceOf(a, Up(c, b)), FaceOf(b, c)>>
Even(x) == (x \div 2) * 2 = x
EvenRound(st) == \A c \in Cells(Nn), a \in 1..3, b \in 1..3 :
  (a < b /\ c[a] < Nn[a] - 1 /\ c[b] < Nn[b] - 1) =>
     LET q == SquareFaces(a, b, c) IN Even(Total([m \in 1..4 |-> Cardinality(st.hit[q[m]])]))
OddFaces(st) == {f \in AllFaces(Nn) : ~Even(Cardinality(st.hit[f]))}
InvSheet == Clear(Sheet) =>
  LET st == [Base EXCEPT !.tri = Sheet, !.hit = AllHits(Base, Sheet)] fs == FaceSet(st)
      above == {c \in Cells(Nn) : Over(Sheet, c)} IN
  /\ EvenRound(st)
  \* a face is crossed an odd number of times just when its cells are on different sides
  /\ \A f \in AllFaces(Nn) : (f \in OddFaces(st)) = ((LowCell(f) \in above) # (HighCell(f) \in above))
  /\ LET r == Reach(Nn, fs) IN r \subseteq above \/ r \cap above = {}
  /\ (above # {} /\ above # Cells(Nn)) => Bisected(Nn, fs, TRUE).k = "cut"
  /\ \A c \in above : \A k \in 0..(Nn[1] - 1) : k <= c[1] => <<k, c[2], c[3]>> \in above
  /\ \A c \in Cells(Nn) : LET x == Shadow(fs, c) IN
        /\ (c \in above /\ <<Nn[1] - 1, c[2], c[3]>> \notin above) => x = 1
        /\ (c \notin above /\ <<0, c[2], c[3]>> \in above) => x = 2
InvBall == Clear(Octa) =>
  LET st == [Base EXCEPT !.tri = Octa, !.hit = AllHits(Base, Octa)]
      inside == {c \in Cells(Nn) : LET p == Centre(Base, c) IN \A m \in 1..8 :
                  Sign(Side(Octa[m], p)) = Sign(Side(Octa[m], <<ball[1], ball[2], ball[3]>>))} IN
  /\ EvenRound(st)
  /\ \A f \in AllFaces(Nn) : (f \in OddFaces(st)) = ((LowCell(f) \in inside) # (HighCell(f) \in inside))
  /\ LET r == Reach(Nn, FaceSet(st)) IN r \subseteq inside \/ r \cap inside = {}
Inv == InvSheet /\ InvBall
=============================================================================
