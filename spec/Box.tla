------------------------------ MODULE Box ------------------------------
(* Boxes of cells: <<lo, hi>> with both corners in the box.  The state is a   *)
(* box with a set of its cells, which trimming reduces together.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
A3 == 1..3
Cells(b) == {<<k, j, i>> : k \in b[1][1]..b[2][1], j \in b[1][2]..b[2][2], i \in b[1][3]..b[2][3]}
Extent(b) == [a \in A3 |-> b[2][a] - b[1][a] + 1]
Volume(b) == Extent(b)[1] * Extent(b)[2] * Extent(b)[3]
Within(b, c) == \A a \in A3 : b[1][a] <= c[a] /\ c[a] <= b[2][a]
Valid(b, x) == \A a \in A3 : 0 <= b[1][a] /\ b[1][a] <= b[2][a] /\ b[2][a] < x[a]
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x
Union(b, d) == IF b = <<>> THEN d ELSE IF d = <<>> THEN b ELSE <<[a \in A3 |-> Min(b[1][a], d[1][a])], [a \in A3 |-> Max(b[2][a], d[2][a])]>>
Plus(p, q, z) == [a \in A3 |-> p[a] + q[a] + z]
Minus(p, q, z) == [a \in A3 |-> p[a] - q[a] + z]
Overlap(b, d) == \A a \in A3 : b[1][a] <= d[2][a] /\ d[1][a] <= b[2][a]
Meet(b, d) == <<[a \in A3 |-> Max(b[1][a], d[1][a])], [a \in A3 |-> Min(b[2][a], d[2][a])]>>
Zero == <<<<0, 0, 0>>, <<0, 0, 0>>>>
\* pieces of b that end at one of its faces: in axis a the slices up to z, or those from z
Low(b, a, z) == <<b[1], [b[2] EXCEPT ![a] = z]>>
High(b, a, z) == <<[b[1] EXCEPT ![a] = z], b[2]>>
\* the pieces to remove from new so that nothing of what remains is in old, with fewest cells
Cuts(old, new) == LET m == Meet(old, new) IN UNION {{Low(new, a, m[2][a]), High(new, a, m[1][a])} : a \in A3}
Trims(old, new) == IF ~ Overlap(old, new) THEN {Zero} ELSE {t \in Cuts(old, new) : \A u \in Cuts(old, new) : Volume(t) <= Volume(u)}
\* t is at one face of b and leaves something
Neat(b, t) == \E a \in A3 : (\E z \in b[1][a]..b[2][a] - 1 : t = Low(b, a, z)) \/ (\E z \in b[1][a] + 1..b[2][a] : t = High(b, a, z))
Rest(b, t) == CHOOSE r \in UNION {{High(b, a, z + 1) : z \in {z \in b[1][a]..b[2][a] - 1 : t = Low(b, a, z)}} \cup
                                  {Low(b, a, z - 1) : z \in {z \in b[1][a] + 1..b[2][a] : t = High(b, a, z)}} : a \in A3} : TRUE
RECURSIVE Tight(_)
Tight(M) == LET c == CHOOSE c \in M : TRUE IN IF Cardinality(M) = 1 THEN <<c, c>> ELSE Union(<<c, c>>, Tight(M \ {c}))
\* a mask as a list of booleans in the order of the cells, last index quickest
CellAt(b, n) == LET x == Extent(b)  k == n \div (x[2] * x[3])  j == (n - k * x[2] * x[3]) \div x[3] IN Plus(b[1], <<k, j, n - k * x[2] * x[3] - j * x[3]>>, 0)
Mask(b, M) == [n \in 1..Volume(b) |-> CellAt(b, n - 1) \in M]
SetOf(b, q) == {CellAt(b, n - 1) : n \in {k \in DOMAIN q : q[k]}}

BoxInit == [b |-> Zero, M |-> {}]
Refusal(s, e) == CASE e.op = "trim" -> ~ Neat(s.b, e.t)
                   [] e.op = "tight" -> s.M = {}
                   [] e.op = "words" -> \E a \in A3 : e.b[1][a] > e.b[2][a]
                   [] OTHER -> FALSE
BoxPost(s, e) ==
    IF Refusal(s, e) THEN s ELSE
    CASE e.op = "set" -> [b |-> e.b, M |-> SetOf(e.b, e.m)]
      [] e.op = "trim" -> [b |-> Rest(s.b, e.t), M |-> s.M \cap Cells(Rest(s.b, e.t))]
      [] e.op = "tight" -> [b |-> Tight(s.M), M |-> s.M]
      [] OTHER -> s
Spaced(b, z) == LET f(a) == ToString(b[1][a] + 1) \o z \o ToString(b[2][a] + 1) IN f(3) \o "  " \o f(2) \o "  " \o f(1)
Listed(b) == LET f(a) == ToString(b[1][a] + 1) \o ":" \o ToString(b[2][a] + 1) IN "[" \o f(3) \o ", " \o f(2) \o ", " \o f(1) \o "]"
Raised(e) == e.res.k # "ok"
Ok(e, b) == IF Raised(e) THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
BoxBad(s, e) ==
    IF Refusal(s, e) THEN {x \in {e.op \o "_accepted"} : ~ Raised(e)} ELSE
    LET t == BoxPost(s, e) IN
    CASE e.op \in {"set", "trim", "tight"} -> Ok(e, e.obs.b = t.b /\ e.obs.m = Mask(t.b, t.M))
      [] e.op = "one" -> Ok(e, /\ e.obs.extent = Extent(e.b) /\ e.obs.volume = Volume(e.b) /\ e.obs.centre = [a \in A3 |-> e.b[1][a] + (e.b[2][a] - e.b[1][a]) \div 2]
                               /\ e.obs.listed = Listed(e.b) /\ e.obs.spaced = Spaced(e.b, " ") /\ e.obs.colons = Spaced(e.b, ":"))
      [] e.op = "words" -> Ok(e, e.obs = e.b)
      [] e.op = "cell" -> Ok(e, /\ e.obs.within = Within(e.b, e.c) /\ e.obs.local = (IF Within(e.b, e.c) THEN Minus(e.c, e.b[1], e.base) ELSE <<>>)
                                /\ e.obs.parent = Plus(e.b[1], e.c, -e.base) /\ e.obs.single = <<e.c, e.c>>)
      [] e.op = "valid" -> Ok(e, e.obs = Valid(e.b, e.x))
      [] e.op = "full" -> Ok(e, e.obs = <<<<0, 0, 0>>, [a \in A3 |-> e.x[a] - 1]>>)
      [] e.op = "union" -> Ok(e, e.obs = Union(e.b, e.d))
      [] e.op = "overlap" -> Ok(e, /\ e.obs.some = Overlap(e.b, e.d) /\ e.obs.ok = Overlap(e.b, e.d) /\ e.obs.t \in Trims(e.b, e.d))
      [] OTHER -> {x \in {"raised"} : Raised(e)}
=============================================================================
