------------------------------ MODULE Objects ------------------------------
(* Objects wholly described by their xml: what is read back is what was     *)
(* given; two of them count as the same thing when every attribute that     *)
(* matters agrees, directly or through the objects referred to; an          *)
(* equivalent object is found and used again exactly when there is one.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CrsKinds == {"LocalDepth3dCrs", "LocalTime3dCrs"}
TimeKinds == {"TimeSeries", "GeologicTimeSeries"}
Unnamed == CrsKinds \cup TimeKinds \cup {"MdDatum", "StratigraphicColumn"}
NoExtra == TimeKinds \cup {"StringTableLookup", "MdDatum"}
\* compared by identity alone
OnlySelf == {"StratigraphicColumnRankInterpretation"}
\* the objects referred to must be the same object, not just an equivalent one
ByIdentity == {"GenericFeatureInterpretation", "MdDatum", "StratigraphicColumn"}

\* the attributes that take part: the thickness range of a stratigraphic unit does not; the units of a rotation do when there is one
Varies(o) == IF o.kind = "StratigraphicUnitInterpretation" THEN SubSeq(o.vary, 1, 4)
             ELSE IF o.kind = "LocalDepth3dCrs" /\ o.vary[8] = "0.0" THEN SubSeq(o.vary, 1, 8)
             ELSE IF o.kind = "LocalDepth3dCrs" THEN SubSeq(o.vary, 1, 9)
             ELSE o.vary

\* an unknown epsg code agrees with any
EpsgAgree(x, y) == x.kind = "LocalDepth3dCrs" => x.vary[10] = y.vary[10] \/ x.vary[10] = "None" \/ y.vary[10] = "None"

RECURSIVE Same(_, _, _, _)
Same(P, a, b, deep) ==
    \/ a = b
    \/ LET x == P[a]  y == P[b] IN
       /\ x.kind = y.kind
       /\ x.kind \notin OnlySelf
       /\ x.kind \notin Unnamed => x.title = y.title
       /\ Varies(x) = Varies(y)
       /\ EpsgAgree(x, y)
       /\ x.hod = y.hod
       /\ (deep /\ x.kind \notin NoExtra) => x.extra = y.extra
       /\ Len(x.refs) = Len(y.refs)
       /\ \A i \in DOMAIN x.refs : IF x.kind \in ByIdentity THEN x.refs[i] = y.refs[i] ELSE Same(P, x.refs[i], y.refs[i], deep)

OInit == [o |-> <<>>, at |-> <<>>]

Id(s, i) == s.at[i]
\* an interpretation without a title takes the name of its feature; a suffix follows after a blank
TitleOf(s, e) == LET t == IF e.title = "" THEN s.o[Id(s, e.refs[1])].title ELSE e.title
                 IN IF e.sfx = "" THEN t ELSE t \o " " \o e.sfx
Rec(s, e) == [kind |-> e.kind, title |-> TitleOf(s, e), vary |-> e.vary, extra |-> e.extra, orig |-> e.orig,
              refs |-> [i \in DOMAIN e.refs |-> Id(s, e.refs[i])], hod |-> [i \in DOMAIN e.hod |-> Id(s, e.hod[i])]]
Found(s, e) == LET P == s.o @@ (e.id :> Rec(s, e)) IN {i \in DOMAIN s.o : Same(P, e.id, i, TRUE)}

OBad(s, e) ==
    CASE e.op = "make" ->
           IF e.res.k # "ok" THEN {"make_raised"}
           ELSE IF e.reuse /\ Found(s, e) # {}
                THEN {x \in {"not_reused"} : e.res.id = e.id} \cup {x \in {"wrong_one_reused"} : e.res.id # e.id /\ e.res.id \notin Found(s, e)}
                     \cup {x \in {"parts_added"} : e.res.added # 0}
                ELSE {x \in {"reused_something_else"} : e.res.id # e.id} \cup {x \in {"parts_added"} : e.res.added # 1}
      [] e.op = "load" ->
           IF e.res.k # "ok" THEN {"load_raised"}
           ELSE LET o == s.o[Id(s, e.i)] IN
                {x \in {"kind"} : e.obs.kind # o.kind} \cup {x \in {"title"} : e.obs.title # o.title}
                \cup {x \in {"attributes"} : e.obs.vary # o.vary} \cup {x \in {"extra"} : e.obs.extra # o.extra}
                \cup {x \in {"refs"} : e.obs.refs # o.refs} \cup {x \in {"occurred"} : e.obs.hod # o.hod}
                \cup {x \in {"originator"} : o.orig # "" /\ e.obs.orig # o.orig}
      [] e.op = "eq" -> 
           IF e.res.k # "ok" THEN {"eq_raised"}
           ELSE {x \in {"equivalence"} : \E i \in DOMAIN e.res.v : e.res.v[i] # Same(s.o, Id(s, e.a), Id(s, e.b), e.deep)}
      [] OTHER -> {x \in {"reopen"} : e.res.k # "ok"}

OPost(s, e) ==
    IF e.op # "make" THEN s
    ELSE LET new == ~ (e.reuse /\ Found(s, e) # {})
         IN [o |-> IF new THEN s.o @@ (e.id :> Rec(s, e)) ELSE s.o, at |-> s.at @@ (e.id :> e.res.id)]
=============================================================================
