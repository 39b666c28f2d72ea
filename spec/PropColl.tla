------------------------------ MODULE PropColl ------------------------------
(* Property collections.  s.props[i] holds the attributes of property i, as  *)
(* any collection should report them; s.coll[c] is the set of members of     *)
(* collection c with the realization number given to the whole of it.        *)
(* Attribute values are strings ("None" for an absent one), titles sequences *)
(* of character codes, numbers four times the value.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NIL == 999999
NAN == 999998

Codes == [p |-> <<112>>]
\* ---- text
Range(q) == {q[i] : i \in DOMAIN q}
Starts(q, p) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Ends(q, p) == Len(p) <= Len(q) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
Contains(q, p) == \E i \in 0..Len(q) - Len(p) : SubSeq(q, i + 1, i + Len(p)) = p
TitleHit(a, b, mode) ==
    CASE mode = "" -> TRUE
      [] mode = "is" -> a = b
      [] mode = "starts" -> Starts(a, b)
      [] mode = "ends" -> Ends(a, b)
      [] mode = "contains" -> Contains(a, b)
      [] mode = "is not" -> a # b
      [] mode = "does not start" -> ~Starts(a, b)
      [] mode = "does not end" -> ~Ends(a, b)
      [] mode = "does not contain" -> ~Contains(a, b)

\* ---- shapes of arrays, given the supporting representation
Shape(sk, d, idx, dir) ==
    CASE sk = "grid" -> LET k == d[1] j == d[2] i == d[3] IN
           (CASE idx = "cells" -> <<k, j, i>> [] idx = "columns" -> <<j, i>> [] idx = "layers" -> <<k>>
             [] idx = "faces" -> (CASE dir = "I" -> <<k, j, i + 1>> [] dir = "J" -> <<k, j + 1, i>> [] dir = "K" -> <<k + 1, j, i>>
                                    [] OTHER -> <<(k + 1) * j * i + k * (j + 1) * i + k * j * (i + 1)>>)
             [] idx = "nodes" -> <<k + 1, j + 1, i + 1>> [] idx = "nodes per cell" -> <<k, j, i, 2, 2, 2>> [] idx = "faces per cell" -> <<k, j, i, 6>>
             [] idx = "column edges" -> <<j * (i + 1) + (j + 1) * i>> [] idx = "edges per column" -> <<j, i, 4>> [] idx = "I0" -> <<k, j>> [] idx = "J0" -> <<k, i>>)
      [] sk = "mesh" -> IF idx = "cells" THEN <<d[1] - 1, d[2] - 1>> ELSE d
      [] sk = "points" -> d
      [] sk = "polyline" -> IF idx = "nodes" \/ d[2] = 1 THEN <<d[1]>> ELSE <<d[1] - 1>>
      [] sk = "surface" -> IF idx = "nodes" THEN <<d[1]>> ELSE <<d[2]>>
      [] sk = "frame" -> IF idx = "nodes" THEN <<d[1]>> ELSE <<d[1] - 1>>
Default(sk) == CASE sk \in {"grid", "mesh"} -> "cells" [] sk \in {"points", "frame"} -> "nodes" [] sk = "polyline" -> "intervals" [] sk = "surface" -> "triangles"
IdxOf(a) == IF a.idx = "" THEN Default(a.sk) ELSE a.idx
DirOf(a) == IF a.ft = "direction" /\ a.facet # "" THEN a.facet ELSE ""
ShapeOf(a) == Shape(a.sk, a.dims, IdxOf(a), DirOf(a)) \o (IF a.count > 1 THEN <<a.count>> ELSE <<>>) \o (IF a.points THEN <<3>> ELSE <<>>)

\* ---- the attributes a property gets from the arguments it is made with
Standard == {"porosity", "pressure", "rock permeability", "permeability rock", "code", "index"}
TitleStr(t) == CASE t = "PORO" -> "porosity" [] t = "KX" -> "rock permeability" [] OTHER -> t
KindOf(a) == CASE a.kind = "" /\ a.title \in {"PORO", "KX"} -> TitleStr(a.title)
               [] a.kind \in {"", "continuous", "discrete"} -> IF a.kind = "" /\ a.points THEN "length" ELSE a.title
               [] a.kind = "permeability rock" -> "rock permeability"
               [] OTHER -> a.kind
LocalKind(a) == IF KindOf(a) \in Standard \cup {"length"} THEN "None" ELSE KindOf(a)
Str(n) == ToString(n)
Scale(a) == IF a.cont THEN 1 ELSE 4
Vals(a) == IF a.cont THEN {x \in Range(a.v) : x # NIL} ELSE {4 * x : x \in {y \in Range(a.v) : y # a.null}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the extremes recorded: of the values that are not null; none for categories and points
Extreme(a, Op(_)) ==
    IF a.cat # 0 \/ a.points THEN NIL
    ELSE IF a.const # NIL THEN (IF a.const = NAN \/ (~ a.cont /\ a.const = 4 * a.null) THEN NIL ELSE a.const)
    ELSE IF Vals(a) = {} THEN NIL ELSE Op(Vals(a))
\* unspecified: what is recorded when every value is null, or the property is of the abstract kind and boolean
LooseExtreme(a) == ~ a.cont /\ a.const = NIL /\ Vals(a) = {}
UomOf(a) == IF ~ a.cont \/ a.points THEN "None" ELSE IF a.uom = "" THEN "mD" ELSE a.uom
ExtraOf(a) == Range(a.extra) \cup (IF a.source = "" THEN {} ELSE {<<"source", a.source>>}) \cup (IF a.cont /\ ~ a.points /\ a.uom = "zz" THEN {<<"Uom", "zz">>} ELSE {})
IsConst(a) == a.const # NIL /\ ~ a.expand
Opt(n) == IF n < 0 THEN "None" ELSE Str(n)
OptS(x) == IF x = "" THEN "None" ELSE x
Faceted(a) == a.ft # "" /\ a.facet # ""
Timed(a) == a.ts # 0 /\ a.ti >= 0
Meta(a) ==
    [id |-> a.id, sup |-> Str(a.sup), real |-> Opt(a.real), cont |-> IF a.cont THEN "True" ELSE "False", points |-> IF a.points THEN "True" ELSE "False",
     count |-> Str(a.count), idx |-> IdxOf(a), kind |-> KindOf(a), ft |-> IF Faceted(a) THEN a.ft ELSE "None", facet |-> IF Faceted(a) THEN a.facet ELSE "None",
     ts |-> IF Timed(a) THEN Str(a.ts) ELSE "None", ti |-> IF Timed(a) THEN Str(a.ti) ELSE "None", uom |-> UomOf(a),
     sl |-> IF a.cat = 0 THEN "None" ELSE Str(a.cat), cat |-> IF a.cat = 0 THEN "False" ELSE "True", lpk |-> LocalKind(a),
     min |-> Extreme(a, MinOf), max |-> Extreme(a, MaxOf), null |-> IF a.cont THEN "nan" ELSE IF IsConst(a) THEN "None" ELSE IF a.null = NIL THEN "-1" ELSE Str(a.null),
     const |-> IF IsConst(a) THEN a.const ELSE NIL]

Fields == {"id", "sup", "real", "cont", "points", "count", "idx", "kind", "ft", "facet", "ts", "ti", "uom", "sl", "cat", "lpk", "min", "max", "null", "const"}
Loose(a, f) == \/ f \in {"min", "max"} /\ LooseExtreme(a)
\* what is observed (o) against what is expected of property a, in a collection with realization number r (-1: none)
MetaBad(a, r, o) ==
    LET x == Meta(a) IN
    {f \in Fields \ {"real"} : ~ Loose(a, f) /\ o[f] # x[f]}
    \cup {f \in {"title"} : o.title # a.tc}
    \cup {f \in {"extra"} : Range(o.extra) # ExtraOf(a)}
    \cup {f \in {"real"} : o.real # IF r >= 0 /\ a.real < 0 THEN Str(r) ELSE x.real}

\* ---- selection: q is a sequence of <<field, value>>
ConstStr(x) == IF x.const = NIL THEN "None" ELSE IF x.const = NAN THEN "nan" ELSE Str(x.const)
Value(x, f) == IF f = "const" THEN ConstStr(x) ELSE x[f]
SameKind(u, v) == u = v \/ {u, v} \subseteq {"rock permeability", "permeability rock"}
Hit1(x, f, v) == CASE f = "kind" -> SameKind(x.kind, v)
                   [] v = "*" -> Value(x, f) # "None"
                   [] v = "none" -> Value(x, f) = "None"
                   [] OTHER -> Value(x, f) = v
RelHit(x, rel) == CASE rel[1] = "" -> TRUE [] rel[1] = "sup" -> x.sup = Str(rel[2]) [] rel[1] = "ts" -> x.ts = Str(rel[2]) [] rel[1] = "sl" -> x.sl = Str(rel[2])
Hit(s, i, q, title, mode) == LET x == Meta(s.props[i]) IN
    /\ \A n \in DOMAIN q : Hit1(x, q[n][1], q[n][2])
    /\ TitleHit(s.props[i].tc, title, mode)
Extras(i, e, s) == \A n \in DOMAIN e.extra : e.extra[n] \in ExtraOf(s.props[i])
Selected(s, e) == {i \in s.coll[e.c].m : Hit(s, i, e.q, e.title, e.mode) /\ RelHit(Meta(s.props[i]), e.rel) /\ Extras(i, e, s) /\ (e.pid = 0 \/ i = e.pid)}

\* members of d that are like the example in all but one respect; attributes the example lacks do not count
Alike(s, e, fs) == {i \in s.coll[e.d].m : LET x == Meta(s.props[i])  y == Meta(s.props[e.example]) IN
                      /\ s.props[i].tc = s.props[e.example].tc
                      /\ \A f \in fs : y[f] = "None" \/ x[f] = y[f]}
Common == {"sup", "cont", "points", "idx", "kind"}
Coming(s, e) == CASE e.how = "all" -> s.coll[e.d].m
                  [] e.how = "some" -> {i \in s.coll[e.d].m : Hit(s, i, e.q, e.title, e.mode)}
                  [] e.how = "times" -> Alike(s, e, Common \cup {"real", "ft", "facet", "ts"})
                  [] e.how = "facets" -> Alike(s, e, Common \cup {"real", "ts", "ti"})
                  [] e.how = "reals" -> Alike(s, e, Common \cup {"ft", "facet", "ts", "ti"})

Made(e) == {e.props[n].id : n \in DOMAIN e.props}
Prop(e, i) == e.props[CHOOSE n \in DOMAIN e.props : e.props[n].id = i]
\* the source of a similar property is the only extra metadata that comes along
Known(s, e) == s.props @@ [i \in Made(e) |-> Prop(e, i)]

PInit == [props |-> <<>>, coll |-> <<>>]
OfSupport(s, n) == {i \in DOMAIN s.props : s.props[i].sup = n}
NewColl(s, e) == [m |-> IF e.how = "support" THEN OfSupport(s, e.sup) ELSE Range(e.ids), real |-> e.real]
PPost(s, e) ==
    CASE e.op = "make" -> [s EXCEPT !.props = Known(s, e)]
      [] e.op = "coll" -> [s EXCEPT !.coll = (e.c :> NewColl(s, e)) @@ s.coll]
      [] e.op = "drop" -> [s EXCEPT !.coll[e.c].m = @ \ Range(e.ids)]
      [] e.op = "inherit" -> IF e.res.k = "ok" THEN [s EXCEPT !.coll[e.c].m = @ \cup Coming(s, e)] ELSE s
      [] e.op = "pset" -> [s EXCEPT !.coll = (e.d :> s.coll[e.c]) @@ s.coll]
      [] e.op = "reopen" -> [s EXCEPT !.coll = <<>>]
      [] OTHER -> s

MembersBad(s, c, o) ==
    LET k == s.coll[c] IN
    {x \in {"members"} : {o[n].id : n \in DOMAIN o} # k.m \/ Len(o) # Cardinality(k.m)}
    \cup UNION {IF o[n].id \in DOMAIN s.props THEN MetaBad(s.props[o[n].id], k.real, o[n]) ELSE {} : n \in DOMAIN o}

Distinct(s, c, f) == {Meta(s.props[i])[f] : i \in s.coll[c].m}
Present(S) == S \ {"None"}
ListIs(q, S, T(_)) == {T(q[n]) : n \in DOMAIN q} = Present(S) /\ Len(q) = Cardinality(Present(S))
Same(x) == x
Rising(q) == \A n \in 1..(Len(q) - 1) : q[n] < q[n + 1]
RealOf(s, c, i) == LET k == s.coll[c] IN IF k.real >= 0 /\ s.props[i].real < 0 THEN Str(k.real) ELSE Opt(s.props[i].real)

SummaryBad(s, e) ==
    LET o == e.obs  c == e.c  D(f) == Distinct(s, c, f)  M == s.coll[c].m
        R == {RealOf(s, c, i) : i \in M} IN
    {x \in {"number"} : o.n # Cardinality(M)}
    \cup {x \in {"titles"} : Len(o.titles) # Cardinality(M) \/ \E t \in {s.props[i].tc : i \in M} :
                 Cardinality({n \in DOMAIN o.titles : o.titles[n] = t}) # Cardinality({i \in M : s.props[i].tc = t})}
    \cup {x \in {"uuids"} : Range(o.uuids) # M \/ Len(o.uuids) # Cardinality(M)}
    \cup {x \in {"all_continuous"} : o.allc # (D("cont") = {"True"})}
    \cup {x \in {"all_discrete"} : o.alld # (D("cont") = {"False"})}
    \cup {x \in {"all_count_one"} : o.one # (D("count") = {"1"})}
    \cup {x \in {"kinds"} : ~ ListIs(o.kinds, D("kind"), Same)}
    \cup {x \in {"realizations"} : ~ ListIs(o.reals, R, Str) \/ ~ Rising(o.reals)}
    \cup {x \in {"facet_types"} : ~ ListIs(o.fts, D("ft"), Same)}
    \cup {x \in {"facets"} : ~ ListIs(o.facets, D("facet"), Same)}
    \cup {x \in {"time_indices"} : ~ ListIs(o.tis, D("ti"), Str) \/ ~ Rising(o.tis)}
    \cup {x \in {"uoms"} : ~ ListIs(o.uoms, D("uom"), Same)}
    \cup {x \in {"indexables"} : ~ ListIs(o.idxs, D("idx"), Same)}
    \cup {x \in {"time_series"} : ~ ListIs(o.tss, D("ts"), Str)}
    \cup {x \in {"lookups"} : ~ ListIs(o.sls, D("sl"), Str)}
    \cup {x \in {"single_kind"} : o.sk # (Cardinality(D("kind")) <= 1)}
    \cup {x \in {"single_indexable"} : o.si # (Cardinality(D("idx")) <= 1)}
    \cup {x \in {"single_uom"} : o.su # (Cardinality(D("uom")) <= 1)}
    \cup {x \in {"multiple_realizations"} : ~ o.inreal /\ o.mr # (Cardinality(Present(D("real"))) > 1)}
    \cup {x \in {"time_set_kind"} : o.tk # (IF M = {} \/ (Cardinality(D("ti")) = 1 /\ Cardinality(D("ts")) = 1 /\ D("ti") # {"None"}) THEN "single time" ELSE "not a time set")}

PBad(s, e) ==
    LET t == PPost(s, e) IN
    CASE e.op = "support" -> {}
      [] e.op = "make" ->
           IF e.res.k # "ok" THEN {"make_raised"}
           ELSE UNION {MetaBad(e.props[n], -1, e.obs[n]) : n \in DOMAIN e.props} \cup {x \in {"shape"} : \E n \in DOMAIN e.props : e.props[n].const = NIL /\ e.props[n].shape # ShapeOf(e.props[n])}
      [] e.op = "select" ->
           LET S == Selected(s, e) IN
           IF e.form # "singleton" \/ Cardinality(S) <= 1
           THEN IF e.res.k # "ok" THEN {"select_raised"}
                ELSE {x \in {"selection"} : e.res.ids # <<-2>> /\ (Range(e.res.ids) # S \/ Len(e.res.ids) # Cardinality(S))}
           ELSE IF e.res.k = "ok" /\ e.res.ids = <<-2>> THEN {}
           ELSE CASE e.mult = "exception" -> {x \in {"several_accepted"} : e.res.k = "ok"}
                  [] e.mult = "none" -> {x \in {"several_given"} : e.res.k # "ok" \/ e.res.ids # <<>>}
                  [] OTHER -> {x \in {"first"} : e.res.k # "ok" \/ Len(e.res.ids) # 1 \/ ~ Range(e.res.ids) \subseteq S}
      [] e.op = "inherit" ->
           LET clash == ~ e.ign /\ Coming(s, e) \cap s.coll[e.c].m # {} IN
           IF e.res.k # "ok" THEN {x \in {"inherit_raised"} : ~ clash}
           ELSE {x \in {"clash_accepted"} : clash} \cup MembersBad(t, e.c, e.obs)
      [] e.op = "summary" -> IF e.res.k # "ok" THEN {"summary_raised"} ELSE SummaryBad(s, e)
      [] e.op = "reopen" -> IF e.res.k # "ok" THEN {"reopen_raised"}
                            ELSE LET K == {LocalKind(s.props[i]) : i \in DOMAIN s.props} \cup {"mine"} IN
                                 {x \in {"local_kinds"} : Range(e.obs) # K \ {"None"} \/ Len(e.obs) # Cardinality(K \ {"None"})}
      [] OTHER -> IF e.res.k # "ok" THEN {"raised"} ELSE MembersBad(t, IF e.op = "pset" THEN e.d ELSE e.c, e.obs)
=============================================================================
