------------------------------ MODULE MCSurf ------------------------------
(* Small surfaces of two patches, changed about: what the answers have to do *)
(* with each other, and that no other answer is let through.                 *)
EXTENDS Surf
CONSTANT MaxSteps
VARIABLES s, n
Pts == << <<0, 0, 0>>, <<16, 0, 8>>, <<0, 16, -8>>, <<16, 16, 16>> >>
T1s == { << <<0, 1, 2>> >>, << <<0, 1, 2>>, <<1, 3, 2>> >>, << <<2, 1, 0>>, <<1, 2, 3>>, <<0, 3, 1>> >> }
T2s == { <<>>, << [t |-> << <<0, 1, 2>> >>, p |-> << <<24, 8, 0>>, <<32, 0, 8>>, <<40, 24, 8>> >>] >>,
         << [t |-> << <<0, 2, 1>>, <<2, 1, 3>> >>, p |-> << <<-16, 8, 0>>, <<-16, 24, 8>>, <<8, 40, 0>>, <<-24, -8, 16>> >>] >> }
Ok == [k |-> "ok", what |-> ""]
Init == n = 0 /\ \E t \in T1s, q \in T2s, dn \in BOOLEAN, zd \in {1, 10} :
          s = [SurfInit EXCEPT !.pt = << [t |-> t, p |-> Pts] >> \o q, !.down = dn, !.zd = zd]
Box(a, b) == << <<a, a, a>>, <<b, b, b>> >>
Trims == {[op |-> "derive", res |-> Ok, how |-> "trim", keep |-> FALSE, role |-> "map", title |-> "x", em |-> <<>>, box |-> x[1], poly |-> x[2], obs |-> <<>>] :
            x \in { <<Box(-99, 99), <<>> >>, <<Box(-17, 9), <<>> >>, << <<>>, << <<-3, -3>>, <<21, -3>>, <<-3, 21>> >> >>,
                    <<Box(-33, 17), << <<-9, -9>>, <<9, -9>>, <<9, 9>>, <<-9, 9>> >> >> } }
\* the patches left, each with the points it uses, in the order they come
Order(p) == SelectSeq([i \in 1..Len(p.p) |-> i], LAMBDA i : i - 1 \in Used(p))
Tidy(p) == LET k == Order(p)  at(i) == Cardinality({a \in 1..Len(k) : k[a] < i + 1})
           IN [p |-> [a \in 1..Len(k) |-> p.p[k[a]]], t |-> [m \in 1..Len(p.t) |-> [c \in 1..3 |-> at(p.t[m][c])]]]
KeptOf(p, e) == Tidy([p EXCEPT !.t = SelectSeq(p.t, LAMBDA w : \E c \in 1..3 : InTrim(e, p.p[w[c] + 1]))])
TrimObs(x, e) == SelectSeq([i \in 1..Len(x.pt) |-> KeptOf(x.pt[i], e)], LAMBDA p : p.t # <<>>)
Flip(p) == [p EXCEPT !.t = [m \in 1..Len(p.t) |-> LET w == Tri(p, m) IN IF Clock(w[1], w[2], w[3]) < 0 THEN <<p.t[m][1], p.t[m][3], p.t[m][2]>> ELSE p.t[m]]]
Rescale(f, r) == [op |-> "change", res |-> Ok, how |-> "rescale", f |-> f, ref |-> r, obs |-> <<>>]
Crs(o, d) == [op |-> "change", res |-> Ok, how |-> "crs", off |-> o, down |-> d, obs |-> <<>>]
Events(x) == {[e EXCEPT !.obs = TrimObs(x, e)] : e \in Trims}
             \cup {LET e == Rescale(f, r) IN [e EXCEPT !.obs = Scaled(x, e)] : f \in {<<2, 1>>, <<-1, 1>>, <<1, 1>>}, r \in {<<>>, <<8>>}}
             \cup {LET e == Crs(o, d) IN [e EXCEPT !.obs = Moved(x, e)] : o \in {<<0, 0, 0>>, <<8, -8, 16>>}, d \in BOOLEAN}
             \cup {[op |-> "change", res |-> Ok, how |-> "clock", obs |-> [i \in 1..Len(x.pt) |-> Flip(x.pt[i])]]}
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Events(s) : e.obs # <<>> /\ s' = SurfPost(s, e)
Spec == Init /\ [][Next]_<<s, n>>
W == Whole(s.pt)
NT == Len(W.t)
\* what the events say happens is let through; with a point or triangle changed it is not
Nudge(q) == [q EXCEPT ![1].p[1] = Add(@, <<0, 0, 8>>)]
Less(q) == [q EXCEPT ![1].t = Tail(@)]
Let == \A e \in Events(s) : /\ SurfBad(s, e) = {}
                            /\ e.obs # <<>> => /\ SurfBad(s, [e EXCEPT !.obs = Less(@)]) # {}
                                               /\ (0 \in Used(e.obs[1]) => SurfBad(s, [e EXCEPT !.obs = Nudge(@)]) # {})
\* patches and the whole
Parts == /\ NT = Total([i \in 1..Len(s.pt) |-> Len(s.pt[i].t)])
         /\ Sound(W) /\ Tris(W) = Flat([i \in 1..Len(s.pt) |-> Tris(s.pt[i])])
         /\ Combined(s, [list |-> <<0, 1, 0>>, pool |-> << <<s.pt[1]>> >>]).t = Whole(<<W, s.pt[1], W>>).t
\* there and back
Back == /\ \A e \in {Crs(o, d) : o \in {<<0, 0, 0>>, <<8, -8, 16>>}, d \in BOOLEAN} :
             LET x == SurfPost(s, [e EXCEPT !.obs = Moved(s, e)]) IN Moved(x, Crs(s.off, s.down)) = s.pt
        /\ LET x == [s EXCEPT !.pt = Scaled(s, Rescale(<<3, 1>>, <<8>>))] IN Scaled(x, Rescale(<<1, 3>>, <<8>>)) = s.pt
        /\ Scaled(s, Rescale(<<1, 1>>, <<>>)) = s.pt
\* each edge is used by some triangle, three to a triangle
RECURSIVE SumUse(_)
SumUse(x) == IF x = {} THEN 0 ELSE LET a == CHOOSE a \in x : TRUE IN EdgeUse(W, a) + SumUse(x \ {a})
EdgesOk == SumUse(Edges(W)) = 3 * NT
\* areas in plan (twice, signed): cuts and quarters have that of what was cut
Area(w) == Abs(Clock(w[1], w[2], w[3]))
AreaSet(x) == LET a == CHOOSE a \in x : TRUE  b == CHOOSE b \in x \ {a} : TRUE  c == CHOOSE c \in x \ {a, b} : TRUE IN Area(<<a, b, c>>)
RECURSIVE SumSet(_)
SumSet(x) == IF x = {} THEN 0 ELSE LET a == CHOOSE a \in x : TRUE IN AreaSet(a) + SumSet(x \ {a})
Areas == /\ \A m \in 1..NT : LET w == Tri(W, m) IN
              (w[1] # w[2] /\ w[2] # w[3] /\ Area(w) % 4 = 0 /\ \A a, b \in 1..3 : \A d \in 1..3 : (w[a][d] + w[b][d]) % 2 = 0) => SumSet(Quarter(w)) = Area(w) /\ Cardinality(Quarter(w)) = 4
         /\ LET c == << Pts[1], Pts[2], Pts[3], Pts[4] >> IN \A k \in Cut2(c) \cup Cut4(c) : SumSet(k) = 2 * 16 * 16
\* normals: both senses of a triangle have one normal, pointing up
Normals == \A m \in 1..NT : LET w == Tri(W, m)  t == TrueN(s, w)  u == TrueN(s, <<w[1], w[3], w[2]>>) IN t = <<-u[1], -u[2], -u[3]>> /\ Dot(t, Sub(<<w[1][1], w[1][2], w[1][3]>>, w[1])) = 0
\* lines: one through the middle of a triangle meets it there, whichever way it points
Meets == \A m \in 1..NT : LET w == Tri(W, m)  at == [d \in 1..3 |-> (w[1][d] + w[2][d] + 2 * w[3][d]) \div 4] IN
    Clock(w[1], w[2], w[3]) # 0 /\ at = [d \in 1..3 |-> (w[1][d] + w[2][d] + 2 * w[3][d] + 3) \div 4] =>
      \A v \in {<<0, 0, 1>>, <<0, 0, -2>>} : LET lp == <<at[1], at[2], at[3] - 4 * v[3]>> IN
         /\ Meet(lp, v, w) = "in" /\ Near(Where(lp, v, w), <<at[1] * 8, at[2] * 8, at[3] * 8>>, 1)
         /\ Hit(lp, v, w, TRUE) = "in" /\ Hit(lp, <<-v[1], -v[2], -v[3]>>, w, TRUE) = "out"
         /\ Meet(<<at[1] + 900, at[2], 0>>, v, w) = "out"
\* crossings lie on the plane, and there are none beyond the surface
Cross0 == \A ax \in 1..3 : \A v \in {-7, 3, 5, 11} : LET x == Crossings(W, ax, v) IN
    /\ \A a \in x : a[ax] = v * 8
    /\ (x = {}) = (CrossingCount(W, ax, v) = 0)
    /\ Crossings(W, ax, 999) = {}
\* taking out points with no value: nothing to do the second time, and nothing missing is left
Holes == \A h \in SUBSET (1..Len(W.p)) : Cardinality(h) <= 2 =>
    LET q == [i \in 1..Len(W.p) |-> IF i \in h THEN <<>> ELSE W.p[i]]  c == Clean(W.t, q) IN
    /\ Clean(c.t, c.p) = c /\ (h = {} => c = W) /\ Sound(c) /\ Len(c.p) = Len(W.p) - Cardinality(h)
    /\ RangeOf(Sets(c)) \subseteq RangeOf(Sets(W))
Inv == Let /\ Parts /\ Back /\ EdgesOk /\ Areas /\ Normals /\ Meets /\ Cross0 /\ Holes
=============================================================================
