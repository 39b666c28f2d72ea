------------------------------ MODULE MCWells ------------------------------
(* Surveys built station by station, and trajectories and frames made from  *)
(* small whole numbers: what the specification says of them hangs together. *)
EXTENDS Wells
CONSTANT MaxSteps
VARIABLES s, n
Az == {0, 90, 150, 270}
Inc == {0, 60, 90, 120, 180}
C == [kind |-> "crs", down |-> TRUE, xy |-> "m", z |-> "m"]
Up == [C EXCEPT !.down = FALSE]
Ft == [C EXCEPT !.xy = "ft", !.z = "ft"]
Init == n = 0 /\ \E a \in Az, i \in Inc, d \in {0, 2} :
          s = [sv |-> [md |-> <<d>>, az |-> <<a>>, inc |-> <<i>>, uom |-> "m"],
               tr |-> [md |-> <<d>>, pts |-> <<<<0, 0, 1000>>>>, dloc |-> <<0, 0, 0>>]]
Sv == s.sv
Tr == s.tr
Station(a, i, d) ==
  LET k == Len(Sv.md) IN
  /\ Plain(Sv.az[k], Sv.inc[k], a, i)
  /\ s' = [s EXCEPT !.sv.md = Append(@, Sv.md[k] + d), !.sv.az = Append(@, a), !.sv.inc = Append(@, i),
                    !.tr.md = Append(@, Tr.md[k] + d),
                    !.tr.pts = Append(@, <<@[k][1] + 400 * d, @[k][2], @[k][3] + 100 * d>>)]
Next == n < MaxSteps /\ n' = n + 1 /\ \E a \in Az, i \in Inc, d \in {1, 3} : Station(a, i, d)
Spec == Init /\ [][Next]_<<s, n>>

SqLen(v) == Dot(v, v)
K == Len(Sv.md)
\* a hop is never longer than the measured depth it takes, is that long when straight, and leans alike to both directions
HopOk == \A i \in 1..(K - 1) :
  LET h == Hop(Sv, C, i)
      b == Bend(Sv.az[i], Sv.inc[i], Sv.az[i + 1], Sv.inc[i + 1])
      u == Direction(Sv.az[i], Sv.inc[i])  w == Direction(Sv.az[i + 1], Sv.inc[i + 1])
  IN /\ SqLen(h) <= 10020
     /\ b > 9995 => SqLen(h) >= 9980 /\ Near3(h, u, 5)
     /\ b <= 5005 => SqLen(h) < 9800
     /\ Tol(Dot(h, u), Dot(h, w), 20)
     /\ Rest(Sv.az[i] - Sv.az[i + 1], 360) = 0 => Tol(b, Cos(Sv.inc[i] - Sv.inc[i + 1]), 20)
     /\ Sv.inc[i] = 90 /\ Sv.inc[i + 1] = 90 => Tol(b, Cos(Sv.az[i] - Sv.az[i + 1]), 20)
     /\ Near3(Hop(Sv, Up, i), <<h[1], h[2], -h[3]>>, 0)
     /\ Near3(h, InCrs(Hop(Sv, Ft, i), "ft", C), 3)
\* flying back the way it came: the same way reversed
BackOk == \A i \in 1..(K - 1) :
  Near3(Chord(Sv.az[i], Sv.inc[i], Sv.az[i + 1], Sv.inc[i + 1]), Chord(Sv.az[i + 1], Sv.inc[i + 1], Sv.az[i], Sv.inc[i]), 0)
\* locations: knots at their depths, even steps between, nothing beyond
AtOk == /\ \A i \in 1..K : AtMd(Tr, 4 * Tr.md[i]) = Tr.pts[i]
        /\ AtMd(Tr, -1) = <<>> /\ AtMd(Tr, 4 * Tr.md[K] + 1) = <<>>
        /\ \A q \in (4 * Tr.md[1])..(4 * Tr.md[K]) : AtMd(Tr, q)[1] = 100 * (q - 4 * Tr.md[1])
        /\ Tr.md[1] > 0 => AtMd(Tr, 0) = Tr.dloc /\ AtMd(Tr, 2 * Tr.md[1]) = <<0, 0, 500>>
\* every depth of a frame is in an interval, in two only at a node between
IntervalOk == K > 1 => \A q \in 0..(4 * Tr.md[K] + 2) :
  LET I == Intervals(Tr, q) IN
    /\ I # {}
    /\ \A x \in I : x[2] \in 0..10000
    /\ (Cardinality(I) = 2) = (\E i \in 2..(K - 1) : q = 4 * Tr.md[i])
    /\ (\E x \in I : x[1] = -1) = (q < 4 * Tr.md[1] \/ q > 4 * Tr.md[K])
TiltAlike == \A a \in {<<3, 4>>, <<0, 5>>}, z \in {5, -5} :
  /\ TiltOk(IF z > 0 THEN <<7071, 7071>> ELSE <<-7071, 7071>>, <<0, 0, 0>>, <<a[1], a[2], z>>, C)
  /\ ~TiltOk(IF z > 0 THEN <<7071, 7071>> ELSE <<-7071, 7071>>, <<0, 0, 0>>, <<a[1], a[2], z>>, Up)
Inv == HopOk /\ BackOk /\ AtOk /\ IntervalOk /\ TiltAlike
=============================================================================
