------------------------------ MODULE CrsConv ------------------------------
(* Local coordinate reference systems: a system has axes that point in two   *)
(* of the four directions, turned clockwise by rot = <<c, s, d>> (cosine c/d, *)
(* sine s/d), an origin o = <<x, y, z>> given along its own unturned axes, z  *)
(* upwards or downwards, and units for x & y (xu) and z (zu). Points are      *)
(* triples of fractions <<n, d>>. All systems share a parent in which the     *)
(* axes are east and north and z is down.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a - b * (a \div b))
Norm(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
Neg(a) == <<0 - a[1], a[2]>>
Add(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == LET x == Norm(a[1], b[2])  y == Norm(b[1], a[2]) IN Norm(x[1] * y[1], x[2] * y[2])
Whole(n) == <<n, 1>>

\* ---- units: size in the base unit
Unit(u) == CASE u = "m" -> <<1, 1>> [] u = "ft" -> <<381, 1250>> [] u = "cm" -> <<1, 100>> [] u = "s" -> <<1, 1>> [] u = "ms" -> <<1, 1000>>
\* size of one unit in terms of another
Factor(u, w) == IF u = w THEN <<1, 1>> ELSE LET a == Unit(u)  b == Unit(w) IN Mul(a, <<b[2], b[1]>>)

\* ---- directions in the parent: <<east, north>>
Dir == [easting |-> <<1, 0>>, westing |-> <<-1, 0>>, northing |-> <<0, 1>>, southing |-> <<0, -1>>]
Turn(v, r) == <<v[1] * r[1] + v[2] * r[2], v[2] * r[1] - v[1] * r[2]>>          \* clockwise, times r[3]
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Axes(c) == <<Dir[c.ax[1]], Dir[c.ax[2]]>>

\* local to parent: east, north and depth, in the units of the system
ToParent(c, p) ==
    LET A == Axes(c)
        T == <<Turn(A[1], c.rot), Turn(A[2], c.rot)>>
        along(m) == Add(Add(Mul(p[1], <<T[1][m], c.rot[3]>>), Mul(p[2], <<T[2][m], c.rot[3]>>)), Whole(c.o[1] * A[1][m] + c.o[2] * A[2][m]))
        z == Add(p[3], Whole(c.o[3]))
    IN <<along(1), along(2), IF c.down THEN z ELSE Neg(z)>>
FromParent(c, q) ==
    LET A == Axes(c)
        T == <<Turn(A[1], c.rot), Turn(A[2], c.rot)>>
        d == [m \in 1..2 |-> Sub(q[m], Whole(c.o[1] * A[1][m] + c.o[2] * A[2][m]))]
        along(a) == Add(Mul(d[1], <<T[a][1], c.rot[3]>>), Mul(d[2], <<T[a][2], c.rot[3]>>))
        z == IF c.down THEN q[3] ELSE Neg(q[3])
    IN <<along(1), along(2), Sub(z, Whole(c.o[3]))>>
ZUnit(c) == IF c.time THEN c.tu ELSE c.zu
Rescale(q, xf, zf) == <<Mul(q[1], xf), Mul(q[2], xf), Mul(q[3], zf)>>
Convert(a, b, p) == FromParent(b, Rescale(ToParent(a, p), Factor(a.xu, b.xu), Factor(ZUnit(a), ZUnit(b))))
Comparable(a, b) == a.time = b.time

\* the parent seen with other axes, or with z upwards
Seen(q, ax, down) == <<IF Dir[ax[1]][1] # 0 THEN Mul(q[1], Whole(Dir[ax[1]][1])) ELSE Mul(q[2], Whole(Dir[ax[1]][2])),
                       IF Dir[ax[2]][1] # 0 THEN Mul(q[1], Whole(Dir[ax[2]][1])) ELSE Mul(q[2], Whole(Dir[ax[2]][2])),
                       IF down THEN q[3] ELSE Neg(q[3])>>
Unseen(q, ax, down) == LET f(m) == IF Dir[ax[1]][m] # 0 THEN Mul(q[1], Whole(Dir[ax[1]][m])) ELSE Mul(q[2], Whole(Dir[ax[2]][m])) IN
                       <<f(1), f(2), IF down THEN q[3] ELSE Neg(q[3])>>
\* right handed: x to y anticlockwise seen from above with z up, or clockwise with z down
RightHanded(c) == LET A == Axes(c) IN ((A[1][1] * A[2][2] - A[1][2] * A[2][1]) = 1) # c.down
EN == <<"easting", "northing">>

\* ---- comparison with observed values, in thousandths
Milli(f) == LET w == f[1] \div f[2]  y == f[1] - w * f[2] IN w * 1000 + (y * 1000) \div f[2]
Near(o, f) == Abs(o - Milli(f)) <= 1
Close(os, ps) == Len(os) = Len(ps) /\ \A n \in DOMAIN ps : \A a \in 1..3 : Near(os[n][a], ps[n][a])
Pt(p) == <<Whole(p[1]), Whole(p[2]), Whole(p[3])>>
Pts(ps) == [n \in DOMAIN ps |-> Pt(ps[n])]
EachPt(F(_), ps) == [n \in DOMAIN ps |-> F(ps[n])]

\* state: systems, and point sets, surfaces and the like: where the points are (system at, patches), and the system now
CrsConvInit == [c |-> <<>>, o |-> <<>>]
CrsConvPost(s, e) ==
    IF e.res.k # "ok" THEN s ELSE
    CASE e.op = "crs" -> [s EXCEPT !.c = Append(@, e.c)]
      [] e.op = "obj" -> [s EXCEPT !.o = Append(@, [at |-> e.c, now |-> e.c, ps |-> e.ps])]
      [] e.op = "change" -> [s EXCEPT !.o[e.n].now = e.c]
      [] OTHER -> s

Ok(e, b) == IF e.res.k # "ok" THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
Flat(pss) == LET RECURSIVE go(_)
                 go(q) == IF q = <<>> THEN <<>> ELSE q[1] \o go(Tail(q))
             IN go(pss)
Now(s, n) == LET o == s.o[n] IN EachPt(LAMBDA p : Convert(s.c[o.at], s.c[o.now], p), Pts(Flat(o.ps)))
Sizes(pss) == [n \in DOMAIN pss |-> Len(pss[n])]
\* points of lines, one of them closed by repeating the first point, put together in the system of the first
MixTo(s, ls) == Flat([n \in DOMAIN ls |-> EachPt(LAMBDA p : Convert(s.c[ls[n].c], s.c[ls[1].c], p), Pts(ls[n].ps))])
Open(l) == IF l.closed /\ l.ps[1] = l.ps[Len(l.ps)] THEN [l EXCEPT !.ps = SubSeq(@, 1, Len(@) - 1)] ELSE l
MinMax(ps, a) == <<LET f(x) == Milli(x[a]) IN CHOOSE m \in {f(ps[n]) : n \in DOMAIN ps} : \A n \in DOMAIN ps : m <= f(ps[n]),
                   LET f(x) == Milli(x[a]) IN CHOOSE m \in {f(ps[n]) : n \in DOMAIN ps} : \A n \in DOMAIN ps : m >= f(ps[n])>>
\* the grid functions: conversion of points both ways, and the box that holds a grid
GridSays(c, e) ==
    IF e.op = "grid"
    THEN LET f == Factor(c.xu, e.xu)  g == Factor(ZUnit(c), e.zu)
             out(p) == Rescale(Seen(ToParent(c, p), EN, e.down), f, g)
             in(p) == FromParent(c, Unseen(Rescale(p, <<f[2], f[1]>>, <<g[2], g[1]>>), EN, e.down))
         IN Close(e.obs.out, EachPt(out, Pts(e.ps))) /\ Close(e.obs.in, EachPt(in, Pts(e.ps)))
    ELSE LET qs == IF e.local THEN Pts(e.ps) ELSE EachPt(LAMBDA p : Seen(ToParent(c, p), EN, c.down), Pts(e.ps))
         IN \A a \in 1..3 : \A m \in 1..2 : Abs(e.obs[m][a] - MinMax(qs, a)[m]) <= 1
CrsConvBad(s, e) ==
    CASE e.op = "crs" -> Ok(e, e.obs = RightHanded(e.c))
      [] e.op = "to_global" -> Ok(e, Close(e.obs, EachPt(LAMBDA p : Seen(ToParent(s.c[e.c], p), e.ax, e.down), Pts(e.ps))))
      [] e.op = "to_local" -> Ok(e, Close(e.obs, EachPt(LAMBDA p : FromParent(s.c[e.c], Unseen(p, e.ax, e.down)), Pts(e.ps))))
      [] e.op = "convert" -> IF ~ Comparable(s.c[e.c], s.c[e.d]) THEN {x \in {"convert_not_refused"} : e.res.k = "ok"}
                             ELSE Ok(e, Close(e.obs, EachPt(LAMBDA p : Convert(s.c[e.c], s.c[e.d], p), Pts(e.ps))))
      [] e.op = "chain" -> Ok(e, Close(e.obs, EachPt(LAMBDA p : Convert(s.c[e.c[1]], s.c[e.c[Len(e.c)]], p), Pts(e.ps))))
      [] e.op = "obj" -> Ok(e, e.obs.n = Sizes(e.ps) /\ Close(e.obs.ps, Pts(Flat(e.ps))) /\ e.obs.c = e.c)
      [] e.op = "change" -> Ok(e, LET z == [s EXCEPT !.o[e.n].now = e.c] IN e.obs.n = Sizes(s.o[e.n].ps) /\ Close(e.obs.ps, Now(z, e.n)) /\ e.obs.c = e.c)
      [] e.op = "object" -> Ok(e, e.obs.n = Sizes(s.o[e.n].ps) /\ Close(e.obs.ps, Now(s, e.n)) /\ e.obs.c = s.o[e.n].now)
      [] e.op = "mix" -> Ok(e, LET ls == IF e.points THEN [n \in DOMAIN e.ls |-> Open(e.ls[n])] ELSE e.ls IN
                                 /\ Close(e.obs.ps, MixTo(s, ls)) /\ e.obs.c = e.ls[1].c
                                 /\ Close(e.obs.src, Flat([n \in DOMAIN e.ls |-> Pts(e.ls[n].ps)])))
      [] e.op \in {"grid", "box"} ->
           LET c == s.c[e.c] IN
           IF e.res.k # "ok" THEN {e.op \o "_raised"} ELSE IF GridSays(c, e) THEN {}
           ELSE IF GridSays([c EXCEPT !.rot[2] = 0 - @], e) THEN {"turned_the_other_way"} ELSE {e.op}
=============================================================================
