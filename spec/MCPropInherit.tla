-------------------------- MODULE MCPropInherit --------------------------
(* Small bricks with the properties that matter for coarsening, boxed,      *)
(* refined, coarsened and copied: totals are kept, what refinement does     *)
(* coarsening undoes, and only the realizations asked for are inherited.    *)
EXTENDS PropInherit
CONSTANTS MaxSteps
VARIABLES s, n
Prop(k, r, f, v) == [t |-> k \o ToString(r) \o f, k |-> k, l |-> FALSE, c |-> IF k = "index" THEN "d" ELSE "c", ft |-> IF f = "" THEN "" ELSE "direction", f |-> f, u |-> "",
                     r |-> r, i |-> -1, e |-> "cells", n |-> 1, z |-> -1, q |-> <<>>, v |-> v]
\* values that vary with the cell, in units of 1/d, from 0 to top
Vals(N, a, b, top, d) == [c \in 1..N |-> <<Mod(a * c + b, top + 1), d>>]
Extents == {<<2, 1, 2>>, <<1, 2, 2>>, <<3, 1, 1>>}
Dims(x, a) == <<[k \in 1..x[1] |-> Mod(k + a, 3)], [j \in 1..x[2] |-> j], [i \in 1..x[3] |-> 1 + Mod(i + a, 2)]>>
Kind(k, r) == {"none"} \cup {k}
Init == n = 0 /\ \E x \in Extents, a \in 0..1, rv, ng, po \in 0..2, rr \in {-1, 0} :
    LET N == Size(x)
        ps == (IF rv = 0 THEN <<>> ELSE <<Prop("rock volume", -1, "", Vals(N, rv, 1, 2, 1))>>)
              \o (IF ng = 0 THEN <<>> ELSE <<Prop("net to gross ratio", rr, "", Vals(N, ng, 0, 2, 2))>>)
              \o (IF po = 0 THEN <<>> ELSE <<Prop("porosity", -1, "", Vals(N, po, 2, 2, 4))>>)
              \o <<Prop("saturation", -1, "", Vals(N, 3, 1, 4, 4)), Prop("saturation", 0, "", Vals(N, 2, 1, 4, 4)), Prop("pressure", -1, "", Vals(N, 5, a, 6, 4)),
                   Prop("index", -1, "", Vals(N, 1, 0, 9, 1)), Prop("cell length", -1, "K", [c \in 1..N |-> <<Dims(x, a)[1][At(x, c)[1] + 1], 1>>]),
                   Prop("cell length", -1, "I", [c \in 1..N |-> <<Dims(x, a)[3][At(x, c)[3] + 1], 1>>])>>
    IN s = [g |-> <<[x |-> x, dim |-> Dims(x, a), ps |-> ps, ina |-> [c \in 1..N |-> c = 2]]>>]
Cur == s.g[Len(s.g)]
All(x) == <<<<0, 0, 0>>, [a \in A3 |-> x[a] - 1]>>
Boxes(x) == {b \in ({0, 1} \X {0, 1} \X {0, 1}) \X ((0..x[1] - 1) \X (0..x[2] - 1) \X (0..x[3] - 1)) : \A a \in A3 : b[1][a] <= b[2][a]}
Ways(m) == IF m = 1 THEN {<<1>>} ELSE IF m = 2 THEN {<<1, 1>>, <<2>>} ELSE {<<3>>, <<1, 2>>, <<2, 1>>}
Even(q) == [c \in DOMAIN q |-> [i \in 1..q[c] |-> 1]]
Ev(how, via, x, b, q, w, r, all) == [op |-> "derive", g |-> Len(s.g), how |-> how, via |-> via, b |-> b, q |-> q, w |-> w, r |-> r, all |-> all, x |-> x, away |-> FALSE, res |-> [k |-> "ok", what |-> ""]]
None3 == <<<<>>, <<>>, <<>>>>
CoarseEv(g, q, r, all) == Ev("coarsen", "coarsen", [a \in A3 |-> Len(q[a])], All(g.x), q, None3, r, all)
FineEv(g, q, r, all) == Ev("refine", "refine", [a \in A3 |-> Sum(q[a])], All(g.x), q, [a \in A3 |-> Even(q[a])], r, all)
BoxEv(g, b, r, all) == Ev("box", "box", BoxExt(b), b, None3, None3, r, all)
CopyEv(g, r, all) == Ev("copy", "box", g.x, All(g.x), None3, None3, r, all)
Qs(x) == Ways(x[1]) \X Ways(x[2]) \X Ways(x[3])
Asks == {<<-1, FALSE>>, <<-1, TRUE>>, <<0, FALSE>>, <<0, TRUE>>}
Ops == {BoxEv(Cur, b, a[1], a[2]) : b \in Boxes(Cur.x), a \in Asks} \cup {CopyEv(Cur, a[1], a[2]) : a \in Asks}
       \cup {FineEv(Cur, [a \in A3 |-> [c \in 1..Cur.x[a] |-> IF a = 1 THEN 2 ELSE c]], -1, TRUE)}
\* the new grid as the specification has it
Made(g, e) == [x |-> e.x, dim |-> NewDim(g, e), ps |-> [i \in DOMAIN Derived(g, e) |-> [Derived(g, e)[i] EXCEPT !.v = New(g, Derived(g, e)[i], e)]],
               ina |-> IF e.how = "box" THEN Inactive(g, e) ELSE [c \in 1..Size(e.x) |-> FALSE]]
Next == n < MaxSteps /\ n' = n + 1 /\ Size(Cur.x) <= 4 /\ \E e \in Ops : s' = PropInheritPost(s, [e EXCEPT !.op = "derive"] @@ [obs |-> Made(Cur, e)])
Spec == Init /\ [][Next]_<<s, n>>

Of(ps, k, r) == {i \in DOMAIN ps : ps[i].k = k /\ ps[i].r = r}
The(ps, k, r) == ps[CHOOSE i \in Of(ps, k, r) : TRUE]
\* total over cells of fractions, in units of 1/d
Tot(v, d) == Sum([c \in DOMAIN v |-> (v[c][1] * d) \div v[c][2]])
\* the value asked for and no other realization
Selecting(g) == \A a \in Asks : LET d == Derived(g, CopyEv(g, a[1], a[2])) IN
    /\ \A i \in DOMAIN d : IF a[1] = -1 THEN a[2] \/ d[i].r = -1 ELSE d[i].r = a[1]
    /\ (a = <<-1, TRUE>> => d = g.ps)
\* the box of everything has everything, and a box of a box is a box of the grid
BoxOfBox(g) == \A i \in {j \in DOMAIN g.ps : g.ps[j].k = "pressure"} : LET p == g.ps[i] IN
    /\ Boxed(p, g.x, All(g.x)) = p.v
    /\ \A b \in Boxes(g.x) : LET y == BoxExt(b)  h == [p EXCEPT !.v = Boxed(p, g.x, b)] IN \A d \in Boxes(y) :
         Boxed(h, y, d) = Boxed(p, g.x, <<[a \in A3 |-> b[1][a] + d[1][a]], [a \in A3 |-> b[1][a] + d[2][a]]>>)
\* coarse values lie between the fine ones, and rock volume in total is kept
Between(g) == g.dim # <<>> => \A q \in Qs(g.x) : LET e == CoarseEv(g, q, -1, TRUE)  h == Made(g, e) IN
    /\ Of(g.ps, "rock volume", -1) # {} => Tot(The(h.ps, "rock volume", -1).v, 4) = Tot(The(g.ps, "rock volume", -1).v, 4)
    /\ \A i \in DOMAIN h.ps : LET o == h.ps[i]  p == g.ps[i] IN
         o.k \in {"pressure", "saturation", "porosity", "net to gross ratio", "index"} => \A c \in DOMAIN o.v : LET fs == FineCells(g.x, q, At(h.x, c), 1) IN
             o.v[c][2] = 0 \/ o.v[c] = <<0, 1>> \/ (/\ \E m \in DOMAIN fs : o.v[c][1] * p.v[fs[m]][2] >= p.v[fs[m]][1] * o.v[c][2]
                                                    /\ \E m \in DOMAIN fs : o.v[c][1] * p.v[fs[m]][2] <= p.v[fs[m]][1] * o.v[c][2])
\* net volume and pore volume are kept where rock volume, ratio and porosity are of the same realization
Kept(g) == \A q \in Qs(g.x) : (Of(g.ps, "rock volume", -1) # {} /\ Of(g.ps, "net to gross ratio", -1) # {}) =>
    LET h == Made(g, CoarseEv(g, q, -1, FALSE))  R == The(g.ps, "rock volume", -1).v  G == The(g.ps, "net to gross ratio", -1).v
        HR == The(h.ps, "rock volume", -1).v  HG == The(h.ps, "net to gross ratio", -1).v
    IN \A c \in DOMAIN HR : LET fs == FineCells(g.x, q, At(h.x, c), 1)
                                net == Sum([m \in DOMAIN fs |-> Num(R[fs[m]], 1) * Num(G[fs[m]], 2)])
                            IN /\ Num(HR[c], 4) * HG[c][1] * 2 = net * 4 * HG[c][2]
                               /\ Of(g.ps, "porosity", -1) # {} =>
                                    LET P == The(g.ps, "porosity", -1).v  HP == The(h.ps, "porosity", -1).v[c]
                                    IN net * HP[1] * 4 = HP[2] * Sum([m \in DOMAIN fs |-> Num(R[fs[m]], 1) * Num(G[fs[m]], 2) * Num(P[fs[m]], 4)])
\* lengths of slices of a brick are its own, coarse or fine; all that is refined is there again when coarsened, but for rock volume
Lengths(g) == g.dim # <<>> => \A q \in Qs(g.x) : LET h == Made(g, CoarseEv(g, q, -1, TRUE)) IN
    \A i \in DOMAIN h.ps : h.ps[i].k = "cell length" => \A c \in DOMAIN h.ps[i].v : LET a == Axis(h.ps[i].f)  z == h.ps[i].v[c] IN z[1] = z[2] * h.dim[a][At(h.x, c)[a] + 1]
Undone(g) == g.dim # <<>> => LET q == [a \in A3 |-> [c \in 1..g.x[a] |-> IF a = 1 THEN 2 ELSE 1]]
        flat == [g EXCEPT !.ps = SelectSeq(g.ps, LAMBDA p : p.k \in {"pressure", "index"} \/ (p.k = "cell length" /\ p.f = "I"))]
        h == Made(flat, FineEv(flat, q, -1, TRUE))
        hd == [h EXCEPT !.dim = <<[k \in 1..2 * g.x[1] |-> g.dim[1][(k + 1) \div 2]], g.dim[2], g.dim[3]>>]
        z == Made(hd, CoarseEv(hd, q, -1, TRUE))
    IN \A i \in DOMAIN z.ps : \A c \in DOMAIN z.ps[i].v : z.ps[i].v[c][2] = 0 \/ Same(z.ps[i].v[c], flat.ps[i].v[c])
Inv == LET g == Cur IN Selecting(g) /\ BoxOfBox(g) /\ (Size(g.x) <= 4 /\ n = 0 => Between(g) /\ Kept(g) /\ Lengths(g) /\ Undone(g))
=============================================================================
