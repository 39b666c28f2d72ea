---------------------------- MODULE MCLattice ----------------------------
(* Small meshes and sets of points, made and changed about: what one has to  *)
(* do with another, and what is not let through.                             *)
EXTENDS Lattice
CONSTANT MaxSteps
VARIABLES s, n
Ok == [k |-> "ok", what |-> ""]
Pool == << <<0, 0, 8>>, <<16, -8, 0>>, <<-8, 24, 16>>, <<8, 8, -8>> >>
Crs0 == [op |-> "crs", off |-> <<0, 0, 0>>, down |-> TRUE, res |-> Ok]
Crs1 == [op |-> "crs", off |-> <<8, -16, 24>>, down |-> FALSE, res |-> Ok]
Arr(p) == [op |-> "set", how |-> "array", p |-> p, title |-> "a", crs |-> 1, lines |-> <<>>, res |-> Ok, obs |-> <<>>]
Mesh(how, nj, ni, o, d, z, of) == [op |-> "mesh", how |-> how, nj |-> nj, ni |-> ni, o |-> o, d |-> d, z |-> z, of |-> of, p |-> <<>>, title |-> "m", role |-> "map",
                                   crs |-> 1, unit |-> <<>>, fl |-> "", res |-> Ok, obs |-> <<>>]
D1 == << <<8, 0, 0>>, <<0, 16, 0>> >>
D2 == << <<8, 8, 0>>, <<-16, 16, 8>> >>
Zs(k) == [i \in 1..k |-> 8 * i - 16]
Init == n = 0 /\ \E q \in {<<1>>, <<1, 2>>, <<3, 2, 4>>, <<1, 2, 3, 4>>} : s = LatticePost(LatticePost(LatticePost(LatticeInit, Crs0), Crs1), Arr([i \in DOMAIN q |-> Pool[q[i]]]))
Box(a, b) == << <<a, a, a>>, <<b, b, b>> >>
Change(how) == [op |-> "change", how |-> how, n |-> 1, p |-> <<Pool[2]>>, box |-> Box(-8, 16), poly |-> << <<-9, -9>>, <<17, -9>>, <<17, 17>>, <<-9, 17>> >>, to |-> 2, res |-> Ok, obs |-> <<>>]
Events == {Change(h) : h \in {"add", "box", "polygon", "crs"}} \cup {[Change("crs") EXCEPT !.to = 1]}
          \cup {Mesh("regular", 2, 3, <<4, 0, 8>>, d, <<>>, 0) : d \in {D1, D2}} \cup {Mesh("reg&z", 3, 2, <<0, 0, 0>>, d, Zs(6), 0) : d \in {D1, D2}}
          \cup {Mesh("ref&z", s.o[k].nj, s.o[k].ni, <<>>, <<>>, Zs(s.o[k].nj * s.o[k].ni), k) : k \in {k \in DOMAIN s.o : s.o[k].k = "mesh"}}
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Events : s' = LatticePost(s, e)
Spec == Init /\ [][Next]_<<s, n>>
X == s.o[1]
There == \A a, b \in DOMAIN s.crs : \A p \in RangeOf(Pts(X)) : Shifted(s.crs[b], s.crs[a], Shifted(s.crs[a], s.crs[b], p)) = p
Cuts == /\ RangeOf(Pts(Changed(s, Change("box")))) \subseteq RangeOf(Pts(X))
        /\ Pts(Changed(s, [Change("box") EXCEPT !.box = Box(-999, 999)])) = Pts(X)
        /\ Len(Pts(Changed(s, Change("add")))) = Len(Pts(X)) + 1
        /\ Len(Pts(Changed(s, Change("crs")))) = Len(Pts(X))
        \* the polygon is a square, as wide as a box that is as high as can be
        /\ Pts(Changed(s, Change("polygon"))) = Pts(Changed(s, [Change("box") EXCEPT !.box = << <<-8, -8, -999>>, <<16, 16, 999>> >>]))
Kept == \A k \in DOMAIN s.o : s.o[k].k = "mesh" =>
    /\ Len(s.o[k].p) = s.o[k].nj * s.o[k].ni
    /\ (s.o[k].of # 0 => Plan(s.o[k].p) = Plan(s.o[s.o[k].of].p))
    /\ LET p == s.o[k].p  ni == s.o[k].ni IN \A i \in 1..Len(p) : i + ni < Len(p) /\ i % ni # 0 /\ s.o[k].fl # "explicit" =>
         \A c \in 1..2 : p[i + 1][c] - p[i][c] = p[i + 1 + ni][c] - p[i + ni][c]
\* the values of a file read either way give the same points when turned about
Files == LET e(f, v) == [fmt |-> f, nj |-> 2, ni |-> 3, x |-> <<0, 16, 0, 8>>, step |-> <<8, 8>>, v |-> v] IN
         RangeOf(FileMesh(e("zmap", <<1, 2, 3, 4, 5, 6>>))) = RangeOf(FileMesh(e("rms", <<2, 4, 6, 1, 3, 5>>)))
Wides == Pts(X) # <<>> => \A b \in {0, 45, 90, 135} : Area4(Pts(X), b) = Area4(Pts(X), Turn(b)) /\ Turn(Turn(b)) = b
            /\ \A c \in {0, 45, 90, 135} : Area4(Pts(X), b) <= 2 * Area4(Pts(X), c) + 2 * (Wide(Pts(X), 0) * Wide(Pts(X), 0) + Wide(Pts(X), 90) * Wide(Pts(X), 90))
Strict == \A e \in Events : e.op = "change" => LET o == Changed(s, e).pt IN
    /\ LatticeBad(s, [e EXCEPT !.obs = o]) = {}
    /\ (Flat(o) # <<>> => LatticeBad(s, [e EXCEPT !.obs = << Tail(Flat(o)) >>]) # {})
Inv == There /\ Cuts /\ Kept /\ Files /\ Wides /\ Strict
=============================================================================
