-------------------------------- MODULE PropArr --------------------------------
(* The arrays of properties.  s.props and s.coll are as in PropColl;          *)
(* s.file[i] is the stored array of property i, as a sequence of values       *)
(* (four times the value if continuous, NIL for not-a-number); s.cache[c][i]  *)
(* is the array which collection c holds in memory, once read or added;       *)
(* s.mm[c][i] is the range last established by normalizing.                   *)
EXTENDS PropColl
H == INSTANCE H5Store

Modd(x, y) == x - y * (x \div y)
AInit == [props |-> <<>>, coll |-> <<>>, file |-> <<>>, cache |-> <<>>, mm |-> <<>>, act |-> <<>>]

Full(n, x) == [i \in 1..n |-> x]
Raw(a) == IF a.const = NIL THEN a.v ELSE Full(H!Prod(ShapeOf(a)), IF a.const = NAN THEN NIL ELSE IF a.cont THEN a.const ELSE a.const \div 4)
\* the array which a collection hands out: the one it holds, otherwise the one stored
Arr(s, c, i) == IF c \in DOMAIN s.cache /\ i \in DOMAIN s.cache[c] THEN s.cache[c][i] ELSE s.file[i]
Held(s, c) == IF c \in DOMAIN s.cache THEN DOMAIN s.cache[c] ELSE {}
Hold(s, c, i, q) == [s EXCEPT !.cache = (c :> ((i :> q) @@ (IF c \in DOMAIN s.cache THEN s.cache[c] ELSE <<>>))) @@ s.cache]
Drop(s, c, S) == IF c \in DOMAIN s.cache THEN [s EXCEPT !.cache[c] = [i \in DOMAIN @ \ S |-> @[i]]] ELSE s
Forget(s, c) == [s EXCEPT !.cache = (c :> <<>>) @@ s.cache, !.mm = (c :> <<>>) @@ s.mm]

\* ---- sampling: element n of the new array is element at[n] (from 0) of the old one
Sampled(s, e, n) == LET p == e.props[n] IN
    IF p.const # NIL THEN Raw(p) ELSE [j \in 1..Len(e.at) |-> Arr(s, e.src, p.from)[e.at[j] + 1]]
NewFile(s, e) == [i \in Made(e) |-> LET n == CHOOSE n \in DOMAIN e.props : e.props[n].id = i IN IF e.how = "sample" THEN Sampled(s, e, n) ELSE Raw(e.props[n])]
Attrs(s, e) == [i \in Made(e) |-> LET p == Prop(e, i) IN IF e.how = "sample" /\ p.const = NIL THEN [p EXCEPT !.v = NewFile(s, e)[i]] ELSE p]
AMake(s, e) ==
    LET nf == NewFile(s, e)  a == Attrs(s, e)
        held == IF e.held THEN {i \in Made(e) : ~ IsConst(a[i])} ELSE {}
        s1 == IF e.how = "sample" THEN [s EXCEPT !.cache = (e.src :> [i \in Held(s, e.src) \cup {e.props[n].from : n \in {m \in DOMAIN e.props : e.props[m].const = NIL}} |-> Arr(s, e.src, i)]) @@ s.cache] ELSE s
        s2 == [s1 EXCEPT !.props = a @@ @, !.file = nf @@ @]
    IN IF e.c = 0 THEN s2
       ELSE [s2 EXCEPT !.coll = (e.c :> [m |-> Made(e), real |-> -1]) @@ @, !.cache = (e.c :> [i \in held |-> nf[i]]) @@ @, !.mm = (e.c :> <<>>) @@ @]

\* ---- masks
Inactive(s, a) == a.sup \in DOMAIN s.act /\ ShapeOf(a) = a.dims /\ a.sk = "grid"
MaskOf(s, a, q, exn) ==
    LET null(x) == IF a.cont THEN x = NIL ELSE (~ IsConst(a) /\ x = (IF a.null = NIL THEN -1 ELSE a.null))
    IN [j \in DOMAIN q |-> (Inactive(s, a) /\ s.act[a.sup][j] = 0) \/ (exn /\ null(q[j]))]

\* ---- stacks of arrays: first axis over facet, realization or time index
KeyOf(a, what) == CASE what = "reals" -> a.real [] what = "times" -> a.ti [] OTHER -> a.fo
Keys(s, e) == {KeyOf(s.props[i], e.what) : i \in s.coll[e.c].m}
Rank(S, k) == Cardinality({x \in S : x < k})
Extent(s, e) == IF e.fill /\ e.what # "facets" THEN MaxOf(Keys(s, e)) + 1 ELSE Cardinality(Keys(s, e))
SlotOf(s, e, i) == IF e.fill /\ e.what # "facets" THEN KeyOf(s.props[i], e.what) ELSE Rank(Keys(s, e), KeyOf(s.props[i], e.what))
OneOf(s, c) == CHOOSE i \in s.coll[c].m : TRUE
StackShape(s, e) == <<Extent(s, e)>> \o ShapeOf(s.props[OneOf(s, e.c)])
Stack(s, e) ==
    LET n == H!Prod(ShapeOf(s.props[OneOf(s, e.c)]))
        M == s.coll[e.c].m
        at == [k \in 0..Extent(s, e) - 1 |-> {i \in M : SlotOf(s, e, i) = k}]
    IN [j \in 1..n * Extent(s, e) |-> LET S == at[(j - 1) \div n] IN
          IF S = {} THEN e.fv ELSE Arr(s, e.c, CHOOSE i \in S : TRUE)[Modd(j - 1, n) + 1]]

\* ---- normalizing.  All in quarters; the result is compared after multiplying by the range
Quarters(a, q) == IF a.cont THEN q ELSE [j \in DOMAIN q |-> 4 * q[j]]
Seen(s, e, a, q) == LET m == MaskOf(s, a, q, FALSE) IN {q[j] : j \in {k \in DOMAIN q : q[k] # NIL /\ ~ (e.masked /\ m[k])}}
MM(s, c, i) == IF c \in DOMAIN s.mm /\ i \in DOMAIN s.mm[c] THEN s.mm[c][i] ELSE <<Extreme(s.props[i], MinOf), Extreme(s.props[i], MaxOf)>>
Trusted(s, e) == e.trust /\ MM(s, e.c, e.i)[1] # NIL /\ MM(s, e.c, e.i)[2] # NIL
Span0(s, e, a, q) == IF Trusted(s, e) THEN MM(s, e.c, e.i) ELSE LET S == Seen(s, e, a, q) IN IF S = {} THEN <<NIL, NIL>> ELSE <<MinOf(S), MaxOf(S)>>
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Norm(s, e) ==
    LET a == s.props[e.i]
        q0 == Quarters(a, Arr(s, e.c, e.i))
        r0 == Span0(s, e, a, q0)
        cyc == e.dc > 0 /\ ~ a.cont
        q1 == IF cyc THEN [j \in DOMAIN q0 |-> Modd(q0[j], 4*e.dc)] ELSE q0
        r1 == IF cyc THEN <<0, 4 * (e.dc - 1)>> ELSE r0
        \* zero pinned at the bottom, the middle or the top of the range; values beyond the range cut off
        big == Max2(r1[2], -r1[1])
        r2 == CASE e.fz = 0 -> <<0, r1[2]>> [] e.fz = 2 -> <<r1[1], 0>> [] e.fz = 1 -> <<-big, big>> [] OTHER -> r1
        q2 == CASE e.fz = 0 /\ r1[1] < 0 -> [j \in DOMAIN q1 |-> IF q1[j] = NIL THEN NIL ELSE Max2(q1[j], 0)]
                [] e.fz = 2 /\ r1[2] > 0 -> [j \in DOMAIN q1 |-> IF q1[j] = NIL THEN NIL ELSE Min2(q1[j], 0)]
                [] e.fz = 1 -> [j \in DOMAIN q1 |-> IF q1[j] = NIL THEN NIL ELSE IF r1[2] >= -r1[1] THEN Max2(q1[j], -big) ELSE Min2(q1[j], big)]
                [] OTHER -> q1
    IN [none |-> r0[1] = NIL, span0 |-> r0, span |-> r2, q |-> q2]
\* o: the observed values, in millionths
NormHit(x, r, o) == IF x = NIL THEN o = NIL
                    ELSE IF r[1] = r[2] THEN o = 500000
                    ELSE LET w == r[2] - r[1]  d == o * w - 1000000 * (x - r[1]) IN d <= (IF w < 0 THEN -w ELSE w) /\ d >= (IF w < 0 THEN w ELSE -w)

\* ---- six faces of a cell: stored in the order K-, K+, J-, I+, J+, I-, handled as (axis KJI, polarity)
FaceAt == <<0, 1, 2, 4, 5, 3>>   \* position in the stored order of (axis, polarity), the latter in row major order
Combed(q) == [j \in DOMAIN q |-> LET c == (j - 1) \div 6  f == Modd(j - 1, 6) IN q[6 * c + FaceAt[f + 1] + 1]]
Discombed(q) == [j \in DOMAIN q |-> LET c == (j - 1) \div 6  f == Modd(j - 1, 6) IN q[6 * c + CHOOSE g \in 1..6 : FaceAt[g] = f]]

ReadsOf(s, e) == CASE e.op = "ref" -> {e.i} [] OTHER -> {}
APost(s, e) ==
    CASE e.op = "make" -> AMake(s, e)
      [] e.op = "active" -> [s EXCEPT !.act = (e.sup :> e.v) @@ @]
      [] e.op = "coll" -> Forget([s EXCEPT !.coll = (e.c :> [m |-> Range(e.ids), real |-> -1]) @@ @], e.c)
      [] e.op = "ref" -> Hold(s, e.c, e.i, Arr(s, e.c, e.i))
      [] e.op = "poke" -> Hold(s, e.c, e.i, [Arr(s, e.c, e.i) EXCEPT ![e.at] = e.x])
      [] e.op = "over" -> LET sh == ShapeOf(s.props[e.i])
                              t == [s EXCEPT !.file[e.i] = H!PutV(sh, e.sel, @, e.v)]
                          IN IF e.i \notin Held(s, e.c) THEN t
                             ELSE IF e.update THEN Hold(t, e.c, e.i, H!PutV(sh, e.sel, s.cache[e.c][e.i], e.v)) ELSE Drop(t, e.c, {e.i})
      [] e.op = "uncache" -> Drop(s, e.c, Range(e.ids))
      [] e.op = "stack" -> IF e.res.k = "ok" THEN Drop(s, e.c, s.coll[e.c].m) ELSE s
      [] e.op = "norm" -> LET n == Norm(s, e)
                              t == Hold(s, e.c, e.i, Arr(s, e.c, e.i))
                          IN IF Trusted(s, e) THEN t ELSE [t EXCEPT !.mm = (e.c :> ((e.i :> n.span0) @@ (IF e.c \in DOMAIN s.mm THEN s.mm[e.c] ELSE <<>>))) @@ @]
      [] e.op = "reopen" -> [s EXCEPT !.coll = <<>>, !.cache = <<>>, !.mm = <<>>, !.act = <<>>]
      [] OTHER -> s

\* unspecified: whether the recorded extremes of integers are those of the active cells only
Vague(s, a, f) == Loose(a, f) \/ (f \in {"min", "max"} /\ ~ a.cont /\ (a.sup \in DOMAIN s.act \/ a.expand))
Same2(o, sh, q) == o.shape = sh /\ o.v = q
ABad(s, e) ==
    IF e.op \in {"support"} THEN {}
    ELSE IF e.op = "stack" /\ Cardinality(Keys(s, e)) # Cardinality(s.coll[e.c].m) THEN {x \in {"ambiguous_accepted"} : e.res.k = "ok"}
    ELSE IF e.res.k # "ok" THEN {e.op \o "_raised"}
    ELSE CASE e.op = "make" ->
                LET a == Attrs(s, e) IN
                UNION {{f \in Fields : ~ Vague(s, a[e.props[n].id], f) /\ e.obs[n][f] # Meta(a[e.props[n].id])[f]} : n \in DOMAIN e.props}
           [] e.op = "ref" -> LET a == s.props[e.i]  q == Arr(s, e.c, e.i) IN
                {x \in {"array"} : ~ Same2(e.obs, ShapeOf(a), q)}
                \cup {x \in {"kind_of_number"} : (e.obs.t = "f") # a.cont}
                \cup {x \in {"mask"} : e.masked /\ e.obs.mask # MaskOf(s, a, q, e.exn)}
                \cup {x \in {"single_array"} : e.via # "coll" /\ e.obs.via # e.via}
           [] e.op = "pref" -> {x \in {"property_array"} : ~ Same2(e.obs, ShapeOf(s.props[e.i]), s.file[e.i])}
           [] e.op = "slice" -> LET sh == ShapeOf(s.props[e.i]) IN {x \in {"slice"} : ~ Same2(e.obs, H!SelShape(sh, e.sel), H!SelV(sh, e.sel, s.file[e.i]))}
           [] e.op = "shape" -> {x \in {"shape"} : e.obs.shape # ShapeOf(s.props[e.i])} \cup {x \in {"type"} : (e.obs.t = "f") # s.props[e.i].cont}
           [] e.op = "stack" -> {x \in {"stack"} : ~ Same2(e.obs, StackShape(s, e), Stack(s, e))} \cup {x \in {"bits"} : e.obs.bits # IF e.b32 THEN 32 ELSE 64}
           [] e.op = "norm" -> LET n == Norm(s, e)  a == s.props[e.i] IN
                IF n.none THEN {x \in {"none_expected"} : ~ e.obs.none}
                ELSE IF e.obs.none THEN {"none_given"}
                ELSE {x \in {"range"} : <<e.obs.min, e.obs.max>> # n.span}
                     \cup {x \in {"mask"} : e.masked /\ e.obs.mask # MaskOf(s, a, Arr(s, e.c, e.i), FALSE)}
                     \cup {x \in {"normalized"} : \E j \in DOMAIN n.q : ~ (e.masked /\ MaskOf(s, a, Arr(s, e.c, e.i), FALSE)[j]) /\ ~ NormHit(n.q[j], n.span, e.obs.v[j])}
           [] e.op = "faces" -> {x \in {"combobulated"} : e.obs.c # Combed(e.v)} \cup {x \in {"discombobulated"} : e.obs.d # Discombed(e.v)}
           [] OTHER -> {}
=============================================================================
