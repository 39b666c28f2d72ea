----------------------------- MODULE MCDelaunay -----------------------------
(* Sets of a few points of a small plan, and all their triangulations made  *)
(* by turning the common edge of two triangles: a triangulation no turn of  *)
(* which makes better is one with empty circles, and the other way round.   *)
EXTENDS Delaunay
CONSTANT MaxSteps
VARIABLES s, n
W == 0..2
Ok == [k |-> "ok", what |-> ""]
Kites == {<<<<0, 0, 0>>, <<2, 0, 1>>, <<2, 2, 0>>, <<0, 2, 1>>>>,
          <<<<0, 0, 0>>, <<2, 0, 1>>, <<5, 4, 0>>, <<0, 1, 1>>>>,
          <<<<0, 0, 0>>, <<4, 1, 1>>, <<6, 5, 0>>, <<1, 3, 1>>>>}
\* a fan of the kite, with points within put in one by one
Init == n = 0 /\ \E k \in Kites : s = [p |-> k, t |-> <<<<1, 2, 3>>, <<1, 3, 4>>>>, dt |-> FALSE]
StrictIn(p, w, x) == LET a == p[w[1]]  b == p[w[2]]  c == p[w[3]] IN
    /\ Turn(a, b, x) > 0 /\ Turn(b, c, x) > 0 /\ Turn(c, a, x) > 0
Put(x, i) ==
  /\ StrictIn(s.p, s.t[i], x)
  /\ LET m == Len(s.p) + 1
         w == s.t[i]
         rest == SelectSeq(s.t, LAMBDA z : z # w)
     IN s' = [s EXCEPT !.p = Append(@, x), !.t = rest \o <<<<w[1], w[2], m>>, <<w[2], w[3], m>>, <<w[3], w[1], m>>>>]
Other(w, e) == CHOOSE x \in RangeOf(w) : x \notin e
Left(p, q) == IF Turn(p[q[1]], p[q[2]], p[q[3]]) > 0 THEN q ELSE <<q[1], q[3], q[2]>>
Flip(e) ==
  LET U == Uses(s.t, e)
      i == CHOOSE x \in U : \A y \in U : x <= y
      j == CHOOSE x \in U : \A y \in U : y <= x
      a == Other(s.t[i], e)
      b == Other(s.t[j], e)
      c == CHOOSE x \in e : TRUE
      d == CHOOSE x \in e : x # c
  IN /\ Cardinality(U) = 2
     /\ Turn(s.p[a], s.p[b], s.p[c]) * Turn(s.p[a], s.p[b], s.p[d]) < 0
     /\ s' = [s EXCEPT !.t = [@ EXCEPT ![i] = Left(s.p, <<a, b, c>>), ![j] = Left(s.p, <<a, b, d>>)]]
Next == n < MaxSteps /\ n' = n + 1 /\ (\/ \E x \in 1..3, y \in 1..2, i \in 1..Len(s.t) : Put(<<x, y, 0>>, i)
                                       \/ \E e \in Edges(s.t) : Flip(e))
Spec == Init /\ [][Next]_<<s, n>>
p == s.p
t == s.t
\* as many triangles and edges as there must be; area that of the hull
CountOk == /\ WellFormed(p, t) /\ Covers(p, t, "scipy")
           /\ Len(t) = 2 * Len(p) - 2 - Cardinality(Rim(t))
           /\ Cardinality(Edges(t)) = Len(p) + Len(t) - 1
           /\ Edges(t) = Rim(t) \cup Inner(t)
\* empty circles, or an edge that can be turned for the better
Bad(e) == LET U == Uses(t, e) IN Cardinality(U) = 2 /\ \E i, j \in U : i # j /\
            LET w == Left(p, t[i]) IN InCircle(p[w[1]], p[w[2]], p[w[3]], p[Other(t[j], e)]) > 0
LocalOk == Delaunay(p, t, "scipy") = (\A e \in Edges(t) : ~Bad(e))
\* being in the circle does not depend on which is asked of which
CircleOk == \A a, b, c, d \in 1..4 : Cardinality({a, b, c, d}) = 4 =>
    /\ InCircle(p[a], p[b], p[c], p[d]) = InCircle(p[b], p[c], p[a], p[d])
    /\ InCircle(p[a], p[b], p[c], p[d]) = -InCircle(p[b], p[a], p[c], p[d])
    /\ InCircle(p[a], p[b], p[c], p[d]) = -InCircle(p[d], p[a], p[b], p[c])
\* the rim goes round once, clockwise in one order only
RimOk == LET B == Rim(t)
             b == <<4, 3, 2, 1>>
             r == <<1, 2, 3, 4>>
         IN /\ Cardinality(B) = 4
            /\ Boundary(p, t, b) /\ ~Boundary(p, t, r)
            /\ Rims(<<<<1, 2>>, <<1, 4>>, <<2, 3>>, <<3, 4>>>>, [e |-> <<<<1, 3, 4, 2>>>>, p |-> <<<<1, 2, 3, 4>>>>])
            /\ ~Rims(<<<<1, 2>>, <<1, 4>>, <<2, 3>>, <<3, 4>>>>, [e |-> <<<<1, 3, 4>>>>, p |-> <<<<1, 2, 3>>>>])
\* the nearest of the points is one of the corners about, when circles are empty; points are their own nearest
CellOk == /\ \A i \in 1..Len(p) : Nearest(p, p[i]) = {i}
          /\ Delaunay(p, t, "scipy") => \A x \in {<<a, b>> : a \in 0..5, b \in 0..4} :
               \A i \in 1..Len(t) : LET w == Left(p, t[i]) IN StrictIn(p, w, x) => Nearest(p, x) \cap RangeOf(w) # {} \/ \E j \in 1..Len(t) : RangeOf(t[j]) \cap RangeOf(w) # {} /\ Nearest(p, x) \cap RangeOf(t[j]) # {}
FanOk == LET f == Fan(4, <<<<1, 2, 3>>, <<1, 3, 4, 2>>>>) IN f = <<<<5, 1, 2>>, <<5, 2, 3>>, <<5, 3, 1>>, <<6, 1, 3>>, <<6, 3, 4>>, <<6, 4, 2>>, <<6, 2, 1>>>>
Inv == CountOk /\ LocalOk /\ CircleOk /\ RimOk /\ CellOk /\ FanOk
=============================================================================
