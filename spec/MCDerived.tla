---------------------------- MODULE MCDerived ----------------------------
(* Small grids, boxed, refined, coarsened, lumped and mended: what one     *)
(* derivation does another undoes.                                         *)
EXTENDS Derived
CONSTANTS MaxSteps
VARIABLES s, n
Extents == {<<1, 1, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<1, 2, 2>>}
\* thr: throw of the columns of second J; lean: an upper layer thicker in the second I
Pts(x, thr, lean, gap) == [c \in 1..Count(x) |-> LET t == KJI(x, c) IN [m \in 1..8 |-> LET b == Bits(m) IN
     <<3 * (t[3] + b[3]) + t[1] + b[1], 2 * (t[2] + b[2]), 4 * (t[1] + b[1]) + (IF gap THEN t[1] ELSE 0) + thr * t[2] + (IF lean /\ t[1] + b[1] = 1 THEN t[3] + b[3] ELSE 0)>>]]
Base(x, thr, lean, gap) == [x |-> x, den |-> 1, gap |-> [k \in 1..x[1] - 1 |-> gap], def |-> [c \in 1..Count(x) |-> TRUE],
                            ina |-> [c \in 1..Count(x) |-> c = 2], pw |-> None, cp |-> Pts(x, thr, lean, gap)]
\* weights of the fine slices of an axis of n coarse slices, each weighing two
Ways(n2) == IF n2 = 1 THEN {<<<<2>>>>, <<<<1, 1>>>>} ELSE {[c \in 1..n2 |-> <<2>>], [c \in 1..n2 |-> IF c = 1 THEN <<1, 1>> ELSE <<2>>]}
Ratio(w) == [c \in DOMAIN w |-> Len(w[c])]
Init == n = 0 /\ \E x \in Extents : \E thr \in 0..1 : \E lean, gap \in BOOLEAN : s = [g |-> <<Base(x, thr, lean, gap)>>]
Last1 == Len(s.g)
Cur == s.g[Last1]
Boxes(g) == {<<lo, hi>> \in {Vec(LAMBDA a : IF a = p THEN 1 ELSE 0) : p \in 0..3} \X {Vec(LAMBDA a : IF a = p THEN 0 ELSE g.x[a] - 1) : p \in 0..3} : \A a \in 1..3 : lo[a] <= hi[a] /\ hi[a] < g.x[a]}
Ok0 == [k |-> "ok", what |-> ""]
Ops == {[op |-> "box", g |-> Last1, lo |-> b[1], hi |-> b[2], more |-> <<>>, parent |-> "p", res |-> Ok0] : b \in Boxes(Cur)}
       \cup {[op |-> "refine", g |-> Last1, w |-> <<a, b, <<>>>>, T |-> 2, parent |-> "grandparent", res |-> Ok0] : a \in Ways(Cur.x[1]), b \in Ways(Cur.x[2])}
       \cup {[op |-> "single", g |-> Last1, lo |-> 0, hi |-> Cur.x[1] - 1, lax |-> l, res |-> Ok0] : l \in BOOLEAN}
       \cup {[op |-> "unsplit", g |-> Last1, faulted |-> TRUE, res |-> Ok0], [op |-> "copy", g |-> Last1, res |-> Ok0]}
Fix(e) == IF e.op # "refine" THEN e ELSE [e EXCEPT !.w = <<e.w[1], e.w[2], [c \in 1..Cur.x[3] |-> <<2>>]>>]
Small(g) == Count(g.x) <= 8 /\ g.den <= 64 /\ g.x[1] <= 2 /\ g.x[2] <= 2
Next == n < MaxSteps /\ n' = n + 1 /\ Small(Cur) /\ \E e \in Ops : ~ Refusal(s, Fix(e)) /\ s' = DerivedPost(s, Fix(e))
Spec == Init /\ [][Next]_<<s, n>>
Times(q, f) == [c \in DOMAIN q |-> [m \in 1..8 |-> Vec(LAMBDA d : f * q[c][m][d])]]
Full(g) == <<<<0, 0, 0>>, Vec(LAMBDA a : g.x[a] - 1)>>
\* a grid is as large as its arrays
Shape(g) == Len(g.cp) = Count(g.x) /\ Len(g.def) = Count(g.x) /\ Len(g.ina) = Count(g.x) /\ Len(g.gap) = g.x[1] - 1
\* the box of everything is the grid, and a box of a box is a box of the grid
BoxOfBox(g) == /\ Boxed(g, Full(g)[1], Full(g)[2], <<>>, 0) = [g EXCEPT !.pw = None]
               /\ \A b \in Boxes(g) : LET h == Boxed(g, b[1], b[2], <<>>, 0) IN \A d \in Boxes(h) :
                    Boxed(h, d[1], d[2], <<>>, 0) = Boxed(g, Vec(LAMBDA a : b[1][a] + d[1][a]), Vec(LAMBDA a : b[1][a] + d[2][a]), <<>>, 0)
\* coarsening undoes refinement
Undone(g) == \A a \in Ways(g.x[1]), b \in Ways(g.x[2]), c \in Ways(g.x[3]) :
    LET f == Refined(g, <<a, b, c>>, 2, None)  h == Coarse(f, <<Ratio(a), Ratio(b), Ratio(c)>>, None)
    IN Shape(f) /\ h.x = g.x /\ h.den = 8 * g.den /\ h.cp = Times(g.cp, 8)
       \* fine neighbours within a coarse cell share a face
       /\ \A m \in 1..Count(f.x) : LET t == KJI(f.x, m) IN (a = <<<<1, 1>>>> /\ t[1] = 0) => \A q \in 1..4 : f.cp[m][q + 4] = f.cp[At(f.x, 1, t[2], t[3])][q]
\* refinement of a coarse cell then a box of its fine cells is the refinement of the box
BoxFine(g) == LET w == <<[c \in 1..g.x[1] |-> <<1, 1>>], [c \in 1..g.x[2] |-> <<2>>], [c \in 1..g.x[3] |-> <<1, 1>>]>>
                  f == Refined(g, w, 2, None)  one == <<<<1, 1>>>>
              IN Boxed(f, <<0, 0, 0>>, <<1, 0, 1>>, <<>>, 0).cp = Refined(Boxed(g, <<0, 0, 0>>, <<0, 0, 0>>, <<>>, 0), <<one, <<<<2>>>>, one>>, 2, None).cp
\* lumping layers keeps top and base; without gaps layer by layer keeps all
Lumped(g) == LET K == g.x[1]  z == Zonal(g, <<<<0, K - 1>>>>, TRUE)  y == Zonal(g, [k \in 1..K |-> <<k - 1, k - 1>>], FALSE)
             IN /\ Shape(z) /\ \A c \in DOMAIN z.cp : LET t == KJI(z.x, c) IN \A m \in 1..4 : z.cp[c][m] = g.cp[At(g.x, 0, t[2], t[3])][m] /\ z.cp[c][m + 4] = g.cp[At(g.x, K - 1, t[2], t[3])][m + 4]
                /\ y.ina = g.ina /\ (g.gap = Flags(K - 1) => y.cp = g.cp)
                /\ Zonal(y, <<<<0, K - 1>>>>, TRUE).cp = z.cp
\* mending leaves whole pillars, and a mended grid as it is
Mending(g) == LET h == Mended(g)  x == g.x IN
                /\ Mended(h).cp = Times(h.cp, 4)
                /\ (x[2] = 2 => \A k \in 0..x[1] - 1, i \in 0..x[3] - 1, kp \in 0..1, ip \in 0..1 : h.cp[At(x, k, 0, i)][Crn(kp, 1, ip)] = h.cp[At(x, k, 1, i)][Crn(kp, 0, ip)])
Ends(g) == LET h == Mended(g) IN Between(g, h, 0, 1).cp = Times(g.cp, h.den) /\ Between(g, h, 1, 1).cp = Times(h.cp, g.den) /\ Between(g, g, 1, 2).cp = Times(g.cp, 2 * g.den)
Ascending(q) == \A i \in 1..Len(q) - 1 : q[i][2] + 1 = q[i + 1][1]
Ranging == \A b \in [1..4 -> {-9, 1, 2}] : Zones(b) # {} /\ ~ Split(b) =>
              LET q == Ranges(b, 3) IN /\ Ascending(q) /\ q[1][1] = 2 + First(b, q[1][3]) /\ {r[3] : r \in Seqs(q)} = Zones(b) /\ Len(q) = Cardinality(Zones(b))
                                       /\ \A k \in 1..4 : b[k] # -9 => \E r \in Seqs(q) : r[3] = b[k] /\ r[1] <= k + 2 /\ k + 2 <= r[2]
Inv == Shape(Cur) /\ BoxOfBox(Cur) /\ (Small(Cur) => (Undone(Cur) /\ BoxFine(Cur))) /\ Lumped(Cur) /\ Mending(Cur) /\ Ends(Cur) /\ (n = 0 => Ranging)
=============================================================================
