------------------------------ MODULE MCLines ------------------------------
(* Small polygons and polylines grown a point at a time: what the answers   *)
(* of Lines have to do with each other.                                     *)
EXTENDS Lines
CONSTANT MaxSteps
VARIABLES s, n
W == 0..2
Ok == [k |-> "ok", what |-> ""]
New(p, c) == LPost(LPost(LInit, [op |-> "crs", flip |-> FALSE, res |-> Ok]), [op |-> "new", p |-> p, closed |-> c, res |-> Ok])
Init == n = 0 /\ \E x, y, c \in W : s = New(<<<<0, x, 0>>, <<2, y, 1>>, <<c, 2, 1>>>>, TRUE)
Next == n < MaxSteps /\ n' = n + 1 /\ \E x, y \in W, i \in 1..Len(s.pls[1].p) :
          LET p == s.pls[1].p
          IN s' = New(SubSeq(p, 1, i) \o <<<<x, y, n>>>> \o SubSeq(p, i + 1, Len(p)), TRUE)
Spec == Init /\ [][Next]_<<s, n>>
pl == s.pls[1]
M == Len(pl.p)
Back(q) == [q EXCEPT !.p = [i \in 1..Len(q.p) |-> q.p[Len(q.p) + 1 - i]]]
Round(q) == [q EXCEPT !.p = [i \in 1..Len(q.p) |-> IF i = Len(q.p) THEN q.p[1] ELSE q.p[i + 1]]]
Plan == {<<x, y>> : x \in -1..3, y \in -1..3}
Mid(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Twice(q) == [q EXCEPT !.p = [i \in 1..Len(q.p) |-> <<2 * q.p[i][1], 2 * q.p[i][2], 2 * q.p[i][3]>>]]
\* of a polygon that does not meet itself both ways of looking agree; turning round or starting elsewhere changes nothing
InsideOk == \A q \in Plan : ~OnEdge(pl, q) =>
    /\ Simple(pl) => (Inside(pl, q, "winding") = Inside(pl, q, "crossing") /\ Abs(Winds(pl, q)) <= 1)
    /\ Inside(pl, q, "crossing") => Inside(pl, q, "winding")
    /\ \A m \in {"winding", "crossing"} : Inside(pl, q, m) = Inside(Back(pl), q, m) /\ Inside(pl, q, m) = Inside(Round(pl), q, m)
    /\ Winds(Back(pl), q) = -Winds(pl, q)
    /\ (\A i \in 1..M : pl.p[i][1] < q[1]) => ~Inside(pl, q, "crossing")
AreaOk == /\ Shoe(Back(pl)) = -Shoe(pl) /\ Shoe(Round(pl)) = Shoe(pl)
          /\ Simple(pl) => Simple(Back(pl)) /\ Simple(Round(pl)) /\ Shoe(pl) # 0
          /\ Convex(pl) = Convex(Back(pl)) /\ Convex(pl) = Convex(Round(pl))
          /\ Convex(pl) => \A i \in 1..M : Bend(pl, i) * Shoe(pl) >= 0
          /\ ~(Convex(pl) /\ NotConvex(pl))
\* of a convex polygon the middle of two corners is inside or on an edge; the corners that bend are those of the hull
HullOk == Simple(pl) =>
    LET H == {i \in 1..M : Extreme(pl, i)}
        two == Twice(pl)
    IN /\ Cardinality(H) >= 3
       /\ Convex(pl) => /\ H = {i \in 1..M : Bend(pl, i) # 0}
                        /\ \A i, j \in 1..M : LET q == Mid(pl.p[i], pl.p[j]) IN OnEdge(two, q) \/ Inside(two, q, "winding")
       /\ H = 1..M => \A i \in 1..M : Bend(pl, i) # 0
\* nearest points: no further than the ends; the foot is on the segment
AwayOk == \A q \in Plan, g \in 1..NSeg(pl) :
    LET a == Tail1(pl, g)
        b == Head1(pl, g)
        d == Away(a, b, q)
        m == Sq(Sub(a, b), TRUE)
        f == Snapped(a, b, q)
    IN /\ Leq(d, <<Sq(Sub(a, q), TRUE), 1>>) /\ Leq(d, <<Sq(Sub(b, q), TRUE), 1>>)
       /\ d = Away(b, a, q) \/ m = 0
       /\ (d[1] = 0) = OnSeg(a, b, q)
       /\ m > 0 => LET far == Sq(Sub(<<f[1], f[2]>>, <<m * q[1], m * q[2]>>), TRUE) IN far * d[2] = d[1] * m * m
\* lines that meet strictly do so whichever is asked first; half lines and whole ones meet where segments do
MeetOk == \A x, y \in {<<-1, 0>>, <<3, 1>>, <<1, 3>>, <<0, -1>>}, g \in 1..NSeg(pl) : x # y =>
    LET a == <<Tail1(pl, g)[1], Tail1(pl, g)[2]>>
        b == <<Head1(pl, g)[1], Head1(pl, g)[2]>>
    IN /\ Meets(x, y, a, b, FALSE, TRUE) = Proper(x, y, a, b)
       /\ Meets(x, y, a, b, FALSE, TRUE) = Meets(a, b, x, y, FALSE, TRUE)
       /\ Meets(x, y, a, b, FALSE, TRUE) => Meets(x, y, a, b, TRUE, TRUE) /\ Touch(x, y, a, b)
       /\ Meets(x, y, a, b, FALSE, TRUE) => \A k \in 1..2 : MeetAt(x, y, a, b, k) * Div(a, b, x, y) = MeetAt(a, b, x, y, k) * Div(x, y, a, b)
\* files: closed lines come back closed from irap, open from charisma; lines of one point are left out
FileOk == \A c \in BOOLEAN :
    LET w == [p |-> pl.p, c |-> c]
        r1 == Read(FileOf(<<w, w>>, "irap"), "irap")
        r2 == Read(FileOf(<<w>>, "charisma"), "charisma")
    IN /\ (c \/ pl.p[1] # pl.p[M]) => (Len(r1) = 2 /\ Same(r1[2], w))
       /\ Len(r2) = 1 /\ r2[1].p = pl.p /\ ~r2[1].c
       /\ Read(<<<<pl.p[1]>>, pl.p>>, "charisma") = r2
\* fractions of the length: the ends are the ends, and somewhere is at each fraction of a neat line
AtOk == LET w == [pl EXCEPT !.c = FALSE]
        IN Neat(w, TRUE) /\ Length(w, TRUE) > 0 =>
             /\ AtFraction(w, w.p[1], 0, 1, 1, TRUE)
             /\ AtFraction(w, w.p[M], 1, 1, 1, TRUE)
             /\ \A g \in 1..NSeg(w) : LET h == Before(w, g, TRUE) IN AtFraction(w, w.p[g], h, Length(w, TRUE), 1, TRUE)
             /\ Before(w, NSeg(w), TRUE) + SegLen(w, NSeg(w), TRUE) = Length(w, TRUE)
Inv == InsideOk /\ AreaOk /\ HullOk /\ AwayOk /\ MeetOk /\ FileOk /\ AtOk
=============================================================================
