------------------------------ MODULE MCDrill -------------------------------
(***************************************************************************)
(* Wells made by walking through the cells of small grids: the knots and   *)
(* faces laid down for a list of cells satisfy what is asked of a well     *)
(* blocked by following its path; spoiling either is noticed; rows of a    *)
(* table are those of the cells kept.                                      *)
(***************************************************************************)
EXTENDS Drill
CONSTANT MaxSteps
VARIABLES g, q

Rock(nk, nj, ni) == [k \in 1..nk |-> [j \in 1..nj |-> [i \in 1..ni |-> k + 2 * j + 3 * i]]]
Grid(zs, thr, dead) == [xs |-> <<0, 10, 30>>, ys |-> <<20, 0>>, zs |-> zs, thr |-> <<thr>>, down |-> TRUE, dead |-> dead,
                        perm |-> Rock(Len(zs) - 1, 1, 2), reg |-> Rock(Len(zs) - 1, 1, 2)]
Grids == {Grid(<<100, 110, 124>>, <<0, 0>>, <<<<1, 0, 1>>>>), Grid(<<100, 110, 124>>, <<0, 6>>, <<>>), Grid(<<100, 110, 110, 120>>, <<0, 0>>, <<<<0, 0, 0>>>>)}

Solid(h) == {c \in Cells(h) : ~Thin(h, c)}
\* no cell left by the face of entry, or made to
Fair(p) == /\ \A i \in 1..(Len(p) - 1) : p[i] # p[i + 1]
           /\ \A i \in 1..Len(p) : InFace(p, i) # OutFace(p, i)
Init == g \in Grids /\ \E c \in Solid(g) : q = <<c>>
Next == /\ Len(q) < MaxSteps
        /\ \E c \in Solid(g) : Fair(Append(q, c)) /\ q' = Append(q, c)
        /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, q>>

\* the well laid down, some thousandths apart
K == Knots(g, q, Len(q))
B == [md |-> [i \in 1..Len(K.p) |-> 8000 * i], inc |-> TRUE, gi |-> K.gi, cells |-> q, faces |-> [i \in 1..Len(q) |-> InFace(q, i) \o OutFace(q, i)]]
WellOf(b) == [kmd |-> b.md, kpt |-> K.p, live |-> FALSE, off |-> <<0, 0>>, down |-> TRUE, uom |-> "m", b |-> b]
W == WellOf(B)
Adjacent(c, d) == Abs(c[1] - d[1]) + Abs(c[2] - d[2]) + Abs(c[3] - d[3]) = 1
Flat == \A r \in 1..Len(g.thr[1]) : g.thr[1][r] = 0
Plainly == [one |-> TRUE, mink |-> -1, maxk |-> -1, hask |-> FALSE, ks |-> <<>>, act |-> FALSE, deep |-> 0, hasr |-> FALSE, rs |-> <<>>, minl |-> 0,
            perf |-> <<>>, uom |-> "", mode |-> "MD", face |-> FALSE, dd |-> FALSE, kh |-> TRUE]
Row(i) == LET n == Number(B.gi, i)  c == q[n]  at == AtMd(W, Div(B.md[i] + B.md[i + 1], 2))
          IN <<c[3] + 1, c[2] + 1, c[1] + 1, 8000, B.md[i] + 4000, at[1], at[2], at[3], 1000, 8000 * Val(g.perm, c)>>
Blocked == SelectSeq([i \in 1..Len(B.gi) |-> i], LAMBDA i : B.gi[i] = 0)
Rows(o) == LET S == SelectSeq(Blocked, LAMBDA i : Kept(g, o, q[Number(B.gi, i)])) IN [x \in 1..Len(S) |-> Row(S[x])]
Event(o, rows) == [way |-> "frame", o |-> o, obs |-> [rows |-> rows, skh |-> SumKh(rows, Len(rows))]]
Options == {Plainly, [Plainly EXCEPT !.act = TRUE], [Plainly EXCEPT !.mink = 1], [Plainly EXCEPT !.hask = TRUE, !.ks = <<0>>], [Plainly EXCEPT !.deep = 441]}

Inv ==
  /\ Shaped(B)
  /\ \A i \in 1..Len(B.gi) : B.gi[i] = 0 => IntervalBad(g, W, B, i, Number(B.gi, i)) = {}
  \* neighbours in a grid without faults are entered where the last was left
  /\ (Flat /\ \A i \in 1..(Len(q) - 1) : Adjacent(q[i], q[i + 1])) =>
       /\ \A i \in 2..Len(B.gi) : B.gi[i] = 0
       /\ \A i \in 2..(Len(B.md) - 1) : BlockBad(g, W, [B EXCEPT !.md[i] = @ + 500]) # {}
  \* spoiling is noticed
  /\ \A c \in Cells(g) \ {q[1]} : BlockBad(g, W, [B EXCEPT !.cells[1] = c]) # {}
  /\ \A x \in 1..4 : BlockBad(g, W, [B EXCEPT !.faces[1][x] = IF x = 2 \/ x = 4 THEN 1 - @ ELSE (@ + 1) % 3]) # {}
  \* tables
  /\ \A o \in Options : LET R == Rows(o) IN
       /\ TableBad(g, W, Event(o, R)) = {}
       /\ R # <<>> => (TableBad(g, W, Event(o, SubSeq(R, 2, Len(R)))) # {} /\ TableBad(g, W, Event(o, [R EXCEPT ![1][8] = -@])) # {})
       /\ (Len(R) < Len(Blocked)) => TableBad(g, W, Event(o, Rows(Plainly))) # {}
=============================================================================
