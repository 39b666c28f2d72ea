---------------------------- MODULE PropInherit ----------------------------
(* Properties of grids and of the grids made from them. A grid has an extent  *)
(* (k, j, i), the sizes of its slices on each axis (or <<>> when not a brick) *)
(* and properties. A property has a title, kind (l: a local kind), class      *)
(* (c: "c"ontinuous, "d"iscrete, ca"t"egorical, "p"oints), facet, uom,        *)
(* realization and time index (-1: none), indexable element, count, null      *)
(* value, constant <<>> or <<v>>, and values as fractions, <<0, 0>> for NaN.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

A3 == 1..3
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Base(q, c) == Sum(SubSeq(q, 1, c))
Size(x) == x[1] * x[2] * x[3]
Cell(x, c) == (c[1] * x[2] + c[2]) * x[3] + c[3] + 1                \* position of cell c = <<k, j, i>>
Mod(a, b) == a - b * (a \div b)
At(x, n) == <<(n - 1) \div (x[2] * x[3]), Mod((n - 1) \div x[3], x[2]), Mod(n - 1, x[3])>>
Same(a, b) == IF b[2] = 0 THEN a[2] = 0 ELSE a[2] # 0 /\ a[1] * b[2] = a[2] * b[1]

\* ---- which properties are inherited: one realization, or those without, or all
Wanted(p, r, all) == IF r >= 0 THEN p.r = r ELSE all \/ p.r = -1
Plain(p) == p.e = "cells" /\ p.n = 1 /\ p.c # "p"
Boxable(p) == p.e \in {"cells", "columns", "layers"}
Passes(p, e) == Wanted(p, e.r, e.all) /\ (IF e.how = "copy" THEN TRUE ELSE IF e.how = "box" THEN Boxable(p) ELSE Plain(p))

\* ---- box: position in the source of the n'th element, where an element has w values
Wide(p) == p.n * (IF p.c = "p" THEN 3 ELSE 1)
BoxAt(el, x, y, b, n) ==
    CASE el = "cells" -> LET c == At(y, n) IN Cell(x, [a \in A3 |-> c[a] + b[1][a]])
      [] el = "columns" -> ((n - 1) \div y[3] + b[1][2]) * x[3] + Mod(n - 1, y[3]) + b[1][3] + 1
      [] el = "layers" -> n + b[1][1]
BoxLen(el, y) == CASE el = "cells" -> Size(y) [] el = "columns" -> y[2] * y[3] [] el = "layers" -> y[1]
Boxed(p, x, b) == LET y == [a \in A3 |-> b[2][a] - b[1][a] + 1]  w == Wide(p) IN
    IF ~ Boxable(p) THEN p.v
    ELSE [n \in 1..BoxLen(p.e, y) * w |-> p.v[(BoxAt(p.e, x, y, b, (n - 1) \div w + 1) - 1) * w + Mod(n - 1, w) + 1]]

\* ---- refinement by ratios q, with weights w of the fine slices
RECURSIVE MapFrom(_, _)
MapFrom(q, c) == IF q = <<>> THEN <<>> ELSE [i \in 1..q[1] |-> c] \o MapFrom(Tail(q), c + 1)
Axis(f) == CASE f = "K" -> 1 [] f = "J" -> 2 [] f = "I" -> 3
Length(p) == p.k = "cell length" /\ p.c = "c" /\ p.ft = "direction"
Refined(p, v, x, q, w) ==
    LET fx == [a \in A3 |-> Sum(q[a])]
        mp == [a \in A3 |-> MapFrom(q[a], 0)]
        of(n) == LET c == At(fx, n) IN v[Cell(x, [a \in A3 |-> mp[a][c[a] + 1]])]
    IN IF ~ Length(p) THEN [n \in 1..Size(fx) |-> of(n)]
       ELSE LET a == Axis(p.f) IN
            [n \in 1..Size(fx) |-> LET f == At(fx, n)[a]  c == mp[a][f + 1]  z == of(n) IN
                <<z[1] * w[a][c + 1][f - Base(q[a], c) + 1], z[2] * Sum(w[a][c + 1])>>]

\* ---- coarsening by ratios q: rock volume and the like are in whole numbers, halves and quarters
Num(z, d) == (z[1] * d) \div z[2]
RECURSIVE FineCells(_, _, _, _)
FineCells(x, q, c, n) ==                                           \* the fine cells of coarse cell c, from the n'th
    IF n > q[1][c[1] + 1] * q[2][c[2] + 1] * q[3][c[3] + 1] THEN <<>>
    ELSE LET d == At([a \in A3 |-> q[a][c[a] + 1]], n) IN <<Cell(x, [a \in A3 |-> Base(q[a], c[a]) + d[a]])>> \o FineCells(x, q, c, n + 1)
Total(f, cells) == Sum([i \in DOMAIN cells |-> f[cells[i]]])
\* the property of a kind for realization r; else (for all realizations) the one without
OfKind(ps, k, r) == {i \in DOMAIN ps : ps[i].k = k /\ ps[i].r = r}
For(ps, k, p, all) == IF OfKind(ps, k, p.r) # {} THEN OfKind(ps, k, p.r) ELSE IF all THEN OfKind(ps, k, -1) ELSE {}
Values(ps, k, p, all, d, other) == LET z == For(ps, k, p, all) IN
    IF z = {} THEN other ELSE LET i == CHOOSE i \in z : TRUE IN [n \in DOMAIN ps[i].v |-> Num(ps[i].v[n], d)]
Perm == {"rock permeability", "permeability rock"}
\* ps: the properties, as cell values for the box being coarsened; vol: volumes of the cells
Coarsened(p, ps, vol, x, q, all) ==
    LET cx == [a \in A3 |-> Len(q[a])]
        one == [n \in 1..Size(x) |-> 1]
        rv == Values(ps, "rock volume", p, all, 1, vol)
        ng == Values(ps, "net to gross ratio", p, all, 2, [n \in 1..Size(x) |-> 2])
        po == Values(ps, "porosity", p, all, 4, one)
        wt == IF p.k \in {"porosity"} \cup Perm THEN [n \in DOMAIN rv |-> rv[n] * ng[n]]
              ELSE IF p.k = "saturation" THEN [n \in DOMAIN rv |-> rv[n] * ng[n] * po[n]] ELSE rv
        v4 == [n \in DOMAIN p.v |-> IF p.v[n][2] = 0 THEN 0 ELSE Num(p.v[n], 4)]
        mean(fs) == LET W == Total(wt, fs) IN
            IF W = 0 THEN (IF p.k \in {"net to gross ratio", "porosity", "saturation"} \cup Perm THEN <<0, 1>> ELSE <<0, 0>>)
            ELSE <<Total([n \in DOMAIN v4 |-> v4[n] * wt[n]], fs), 4 * W>>
        of(c) == LET fs == FineCells(x, q, c, 1) IN
            IF p.c # "c" THEN p.v[fs[1]]
            ELSE IF p.k = "rock volume" THEN <<Total(v4, fs), 4>>
            ELSE IF p.k = "cell length" THEN <<Total(v4, fs), (4 * Len(fs)) \div q[Axis(p.f)][c[Axis(p.f)] + 1]>>
            ELSE mean(fs)
    IN [n \in 1..Size(cx) |-> of(At(cx, n))]

Vol(dim, b, x) == [n \in 1..Size(x) |-> LET c == At(x, n) IN dim[1][c[1] + b[1][1] + 1] * dim[2][c[2] + b[1][2] + 1] * dim[3][c[3] + b[1][3] + 1]]
BoxExt(b) == [a \in A3 |-> b[2][a] - b[1][a] + 1]
\* values of p for the new grid
New(g, p, e) ==
    LET v == IF e.how = "copy" THEN p.v ELSE Boxed(p, g.x, e.b)
        y == BoxExt(e.b)
        cells == SelectSeq(g.ps, LAMBDA z : Plain(z) /\ Wanted(z, e.r, e.all))
        ps == [i \in DOMAIN cells |-> [cells[i] EXCEPT !.v = Boxed(cells[i], g.x, e.b)]]
    IN CASE e.via = "box" -> v
         [] e.via = "refine" -> Refined(p, v, y, e.q, e.w)
         [] e.via = "coarsen" -> Coarsened([p EXCEPT !.v = v], ps, Vol(g.dim, e.b, y), y, e.q, e.all /\ e.r = -1)
SameAttr(o, p) == /\ o.t = p.t /\ o.k = p.k /\ o.l = p.l /\ o.c = p.c /\ o.ft = p.ft /\ o.f = p.f /\ o.u = p.u
                  /\ o.r = p.r /\ o.i = p.i /\ o.e = p.e /\ o.n = p.n /\ (p.q # <<>> \/ o.z = p.z)
SameValues(a, b) == Len(a) = Len(b) /\ \A n \in DOMAIN a : Same(a[n], b[n])
Derived(g, e) == SelectSeq(g.ps, LAMBDA p : Passes(p, e))
\* a constant stays one, but for lengths that differ when refined; coarse values are an array
SameConst(o, p, e) == e.via = "coarsen" \/ (e.via = "refine" /\ Length(p)) \/ o.q = p.q
NewDim(g, e) ==
    IF g.dim = <<>> THEN <<>> ELSE
    LET d == [a \in A3 |-> SubSeq(g.dim[a], e.b[1][a] + 1, e.b[2][a] + 1)] IN
    IF e.how = "copy" \/ e.via = "refine" THEN <<>>
    ELSE IF e.via = "box" THEN d
    ELSE [a \in A3 |-> [c \in DOMAIN e.q[a] |-> Sum(SubSeq(d[a], Base(e.q[a], c - 1) + 1, Base(e.q[a], c)))]]

PropInheritInit == [g |-> <<>>]
PropInheritPost(s, e) ==
    IF e.res.k # "ok" THEN s ELSE
    CASE e.op = "make" -> [s EXCEPT !.g = Append(@, [x |-> [a \in A3 |-> Len(e.dim[a])], dim |-> e.dim, ps |-> <<>>, ina |-> e.ina])]
      [] e.op = "add" -> [s EXCEPT !.g[e.g].ps = Append(@, e.p)]
      [] e.op = "derive" -> IF e.away THEN s ELSE [s EXCEPT !.g = Append(@, [x |-> e.x, dim |-> NewDim(s.g[e.g], e), ps |-> e.obs.ps, ina |-> e.obs.ina])]

Ok(e, b) == IF e.res.k # "ok" THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
Named(ps, t) == {i \in DOMAIN ps : ps[i].t = t}
Inactive(g, e) == IF e.how = "copy" THEN g.ina ELSE IF e.via = "box" /\ e.how = "box" THEN LET y == BoxExt(e.b) IN [n \in 1..Size(y) |-> g.ina[BoxAt("cells", g.x, y, e.b, n)]] ELSE <<>>
PropInheritBad(s, e) ==
    CASE e.op = "make" -> Ok(e, e.obs.ps = <<>> /\ e.obs.ina = e.ina)
      [] e.op = "add" -> Ok(e, SameAttr(e.obs, e.p) /\ SameValues(e.obs.v, e.p.v) /\ e.obs.q = e.p.q)
      [] e.op = "derive" -> IF e.res.k # "ok" THEN {e.via \o "_raised"} ELSE
            LET g == s.g[e.g]  d == Derived(g, e)  o == e.obs.ps IN
            {c \in {"titles"} : ~ (Len(o) = Len(d) /\ \A i \in DOMAIN d : Cardinality(Named(o, d[i].t)) = 1)} \cup
            {c \in {"extent"} : e.obs.x # e.x} \cup
            {c \in {"mask"} : Inactive(g, e) # <<>> /\ e.obs.ina # Inactive(g, e)} \cup
            {c \in {"held"} : ~ e.obs.held} \cup
            {c \in {"source"} : e.obs.src # <<>> /\ ~ (Len(e.obs.src) = Len(g.ps) /\ \A i \in DOMAIN g.ps : \E j \in DOMAIN e.obs.src : SameAttr(e.obs.src[j], g.ps[i]) /\ SameValues(e.obs.src[j].v, g.ps[i].v))} \cup
            UNION {LET p == d[i] IN UNION {LET q == o[j] IN {c \in {"attributes"} : ~ SameAttr(q, p)} \cup {c \in {"constant"} : ~ SameConst(q, p, e)}
                         \cup {c \in {e.via \o "_" \o p.k} : ~ SameValues(q.v, New(g, p, e))} : j \in Named(o, p.t)} : i \in DOMAIN d}
=============================================================================
