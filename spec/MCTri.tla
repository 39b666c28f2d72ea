------------------------------ MODULE MCTri ------------------------------
(* Small meshes of equilateral triangles: that the triangles fill the plan   *)
(* once, have sides of one length, and that answers agree with each other.   *)
EXTENDS Tri
CONSTANT MaxSteps
VARIABLES s, n
Ok == [k |-> "ok", what |-> ""]
Hills == { [j \in 1..4 |-> [i \in 1..4 |-> 8 * j + 16 * i]], [j \in 1..4 |-> [i \in 1..4 |-> 8 * ((i * j) % 3) - 8]],
           [j \in 1..4 |-> [i \in 1..4 |-> IF i = 2 /\ j = 2 THEN Gone ELSE 8 * (i - j)]] }
Cut(h, nj, ni) == [j \in 1..nj |-> [i \in 1..ni |-> h[j][i]]]
Init == n = 0 /\ \E nj \in 2..4, ni \in 2..3, h \in Hills :
          s = TriPost(TriInit, [op |-> "make", nj |-> nj, ni |-> ni, z |-> Cut(h, nj, ni), t |-> 8, o |-> <<0, 0>>, title |-> "a", role |-> "map", uom |-> "", res |-> Ok])
Next == n < MaxSteps /\ n' = n + 1 /\ \E h \in Hills, ti \in {"", "b"} :
          s' = TriPost(s, [op |-> "again", z |-> Cut(h, s.nj, s.ni), title |-> ti, role |-> "pick", uom |-> "", res |-> Ok])
Spec == Init /\ [][Next]_<<s, n>>
Pt(x) == At(x[1], x[2])
Len2(a, b) == 4 * (a[1] - b[1]) * (a[1] - b[1]) + 3 * (a[2] - b[2]) * (a[2] - b[2])
\* sides are all of one length; each is used by one triangle or two; the count of them is as it must be
SidesOk == /\ \A x \in Sides(s) : \E a, b \in x : Len2(Pt(a), Pt(b)) = 1024
           /\ Cardinality(Sides(s)) = s.nj * (s.ni - 1) + (s.nj - 1) * (2 * s.ni - 1)
           /\ Cardinality({RangeOf(NodesOf(w[1], w[2])) : w \in Tris(s)}) = 2 * (s.ni - 1) * (s.nj - 1)
           /\ \A w \in Tris(s) : RangeOf(NodesOf(w[1], w[2])) \subseteq Nodes(s)
           /\ {Index(s, w) : w \in Tris(s)} = 0..Cardinality(Tris(s)) - 1
\* no point is within two triangles; the weights of a triangle are those of one point
Plan == {<<3 * a + 1, 5 * b + 2>> : a \in 0..16, b \in 0..9}
PlanOk == \A x \in Plan : LET h == Inner(s, x) IN
    /\ Cardinality(h) <= 1
    /\ (h = {} /\ x[2] < 16 * (s.nj - 1) /\ x[1] > 8 /\ x[1] < 16 * (s.ni - 1) => Hits(s, x) # {})
    /\ (h # {} => ~ Found(s, x, <<>>))
\* at a node the height is that of the node, by whichever triangle; along a side it is between
HeightOk == \A w \in Tris(s) : LET nn == NodesOf(w[1], w[2]) IN \A c \in 1..3 :
    LET z == ZOf(s, w, Pt(nn[c])) IN (Gone \notin {Z(s, nn[k]) : k \in 1..3} => z = 32 * Z(s, nn[c]))
\* crossings of a value: as many as pairs of neighbours on either side of it
CrossLen == \A v \in {-4, 4, 12} : LET e == [ax |-> 3, val |-> v, f |-> <<>>] IN
    Cardinality(CrossSides(s, e)) = Cardinality({x \in Sides(s) : \E a, b \in x : Z(s, a) # Gone /\ Z(s, b) # Gone /\ Z(s, a) < v /\ Z(s, b) > v})
\* steps make a distance
StepsOk == \A a, b \in Nodes(s) : /\ Steps(a, b) = Steps(b, a) /\ (Steps(a, b) = 0) = (a = b)
                                  /\ ({a, b} \in Sides(s)) = (Steps(a, b) = 1)
                                  /\ \A c \in Nodes(s) : Steps(a, c) <= Steps(a, b) + Steps(b, c)
\* a mean of one height everywhere is that height; a stencil of one node changes nothing
Stencil(p, flat, norm, mean) == [p |-> p, flat |-> flat, norm |-> norm, mean |-> mean, border |-> FALSE, keep |-> FALSE]
MeanOk == \A p \in {<<2, 1>>, <<1, 0, 3>>}, flat \in BOOLEAN :
    LET one == [s EXCEPT !.z = [j \in 1..s.nj |-> [i \in 1..s.ni |-> 24]]]  e == Stencil(p, flat, <<1>>, TRUE) IN
    /\ \A x \in Nodes(s) : Stencilled(one, e, x, 24 * 64) /\ ~ Stencilled(one, e, x, 24 * 64 + 3)
    /\ Whole(e) > 0 /\ (flat => Whole(e) = 12 * SumOver(LAMBDA d : p[d + 1] * (IF d = 0 THEN 1 ELSE 6 * d), 0..Len(p) - 1))
    /\ (~flat => Whole(e) = 12 * SumOver(LAMBDA d : p[d + 1], 0..Len(p) - 1))
Same == \A x \in Nodes(s) : Z(s, x) # Gone => Stencilled(s, Stencil(<<3, 0>>, TRUE, <<1>>, TRUE), x, 64 * Z(s, x))
Inv == SidesOk /\ PlanOk /\ HeightOk /\ CrossLen /\ StepsOk /\ MeanOk /\ Same
=============================================================================
