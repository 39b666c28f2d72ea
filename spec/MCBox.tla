------------------------------ MODULE MCBox ------------------------------
(* Trimming of small boxes: what a cut leaves is a box without the other box, *)
(* and the mask is that of the box.                                           *)
EXTENDS Box
CONSTANTS MaxSteps
VARIABLES s, n
Boxes == {<<<<a, b, c>>, <<d, e, f>>>> : a \in 0..1, b \in 0..1, c \in {0}, d \in 0..2, e \in 1..2, f \in 0..1}
Good == {b \in Boxes : \A a \in A3 : b[1][a] <= b[2][a]}
Ok0 == [k |-> "ok", what |-> ""]
Odd(c) == c[1] + 2 * c[2] + c[3] \in {1, 3, 4}
Init == n = 0 /\ \E b \in Good : s = [b |-> b, M |-> {c \in Cells(b) : Odd(c)}]
Ops == {[op |-> "trim", t |-> t, res |-> Ok0] : t \in UNION {Trims(d, s.b) : d \in Good}} \cup {[op |-> "tight", res |-> Ok0]}
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Ops : s' = BoxPost(s, e)
Spec == Init /\ [][Next]_<<s, n>>
Held == s.M \subseteq Cells(s.b) /\ SetOf(s.b, Mask(s.b, s.M)) = s.M
Shape == Cardinality(Cells(s.b)) = Volume(s.b) /\ Tight(Cells(s.b)) = <<s.b[1], s.b[2]>>
Apart == \A d \in Good : /\ Overlap(d, s.b) = (Cells(d) \cap Cells(s.b) # {})
                         /\ (Overlap(d, s.b) => \A t \in Trims(d, s.b) : /\ Cells(d) \cap Cells(s.b) \subseteq Cells(t)
                               /\ (Volume(t) = Volume(s.b) \/ (Neat(s.b, t) /\ Cells(Rest(s.b, t)) = Cells(s.b) \ Cells(t))))
                         /\ Cells(d) \cup Cells(s.b) \subseteq Cells(Union(d, s.b)) /\ Union(d, s.b) = Tight(Cells(d) \cup Cells(s.b))
Inv == Held /\ Shape /\ Apart
=============================================================================
