----------------------------- MODULE MCCrsConv -----------------------------
(* All pairs of a set of systems, and a point carried from one to another.   *)
EXTENDS CrsConv
CONSTANT MaxSteps
VARIABLES cur, p, p0, first, n
Orders == {<<"easting", "northing">>, <<"northing", "easting">>, <<"westing", "southing">>, <<"southing", "westing">>, <<"northing", "westing">>, <<"westing", "northing">>}
Turns == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<4, 3, 5>>}
Systems == {[ax |-> a, rot |-> r, o |-> o, down |-> d, xu |-> u[1], zu |-> u[2], tu |-> "", time |-> FALSE] :
             a \in Orders, r \in Turns, o \in {<<0, 0, 0>>, <<3, -2, 1>>}, d \in BOOLEAN, u \in {<<"m", "m">>, <<"ft", "cm">>}}
Some == {c \in Systems : c.o[1] # 0 /\ (c.rot[3] = 5 => c.xu = "m")}
Points == {Pt(<<1, 0, 0>>), Pt(<<5, -7, 2>>)}
Init == \E c \in Systems : \E q \in Points : cur = c /\ first = c /\ p = q /\ p0 = q /\ n = 0
Next == n < MaxSteps /\ \E c \in Some : /\ (n > 0 => c.ax = <<"northing", "easting">> /\ c.rot[3] = 1)
                                        /\ p' = Convert(cur, c, p) /\ cur' = c /\ n' = n + 1 /\ UNCHANGED <<first, p0>>
Spec == Init /\ [][Next]_<<cur, p, p0, first, n>>
SameP(a, b) == \A i \in 1..3 : Sub(a[i], b[i])[1] = 0
\* where it is depends neither on the way nor on the number of conversions
SamePlace == SameP(p, Convert(first, cur, p0)) /\ SameP(Convert(cur, first, p), p0)
Back == SameP(FromParent(cur, ToParent(cur, p)), p) /\ SameP(ToParent(cur, FromParent(cur, p)), p)
SeenBack == \A ax \in Orders : \A d \in BOOLEAN : SameP(Unseen(Seen(p, ax, d), ax, d), p) /\ SameP(Seen(Unseen(p, ax, d), ax, d), p)
\* seen along its own axes a system is only shifted, if not turned
Shifted == cur.rot = <<1, 0, 1>> => \A i \in 1..3 : Seen(ToParent(cur, p), cur.ax, cur.down)[i] = Add(p[i], Whole(cur.o[i]))
Hand == RightHanded(cur) # RightHanded([cur EXCEPT !.down = ~ @])
        /\ RightHanded([cur EXCEPT !.ax = <<"easting", "northing">>, !.down = FALSE])
\* turned by a quarter, the second axis points east instead of north
Quarter == LET c == [cur EXCEPT !.ax = EN, !.rot = <<0, 1, 1>>, !.o = <<0, 0, 0>>] IN
           SameP(ToParent(c, Pt(<<0, 1, 0>>)), <<Whole(1), Whole(0), Whole(0)>>) /\ SameP(ToParent(c, Pt(<<1, 0, 0>>)), <<Whole(0), Whole(-1), Whole(0)>>)
Inv == SamePlace /\ Back /\ SeenBack /\ Shifted /\ Hand /\ Quarter
=============================================================================
