------------------------------ MODULE MCPropColl ------------------------------
(* All short histories of two collections over a fixed set of properties,     *)
(* with every single criterion, pairs of criteria and title modes.            *)
EXTENDS PropColl
CONSTANTS MaxSteps
VARIABLES s, n
A == <<97>>
AB == <<97, 98>>
Base == [id |-> 0, sup |-> 1, sk |-> "mesh", dims |-> <<3, 2>>, cont |-> TRUE, points |-> FALSE, cat |-> 0, title |-> "a", tc |-> A, kind |-> "porosity", idx |-> "",
         ft |-> "", facet |-> "", uom |-> "m", real |-> -1, ts |-> 0, ti |-> -1, count |-> 1, null |-> NIL, extra |-> <<>>, source |-> "", const |-> NIL, expand |-> FALSE,
         cbool |-> FALSE, v |-> <<4, NIL, -8, 12>>, shape |-> <<2, 1>>]
P == << [Base EXCEPT !.id = 1],
        [Base EXCEPT !.id = 2, !.cont = FALSE, !.cat = 1, !.kind = "facies", !.tc = AB, !.title = "ab", !.v = <<2, -1, 5>>, !.null = -1, !.real = 0],
        [Base EXCEPT !.id = 3, !.kind = "permeability rock", !.ft = "direction", !.facet = "I", !.ts = 1, !.ti = 2, !.tc = AB, !.title = "ab"],
        [Base EXCEPT !.id = 4, !.sup = 2, !.cont = FALSE, !.kind = "", !.const = 8, !.real = 1, !.extra = <<<<"k", "v">>>>, !.idx = "nodes"],
        [Base EXCEPT !.id = 5, !.ts = 1, !.ti = 3, !.kind = "permeability rock", !.ft = "direction", !.facet = "J", !.tc = AB, !.title = "ab", !.real = 2] >>
Ids == 1..5
Qs == {<<f, x>> : f \in {"real", "idx", "ft", "facet", "ts", "ti", "uom", "sl", "const", "count"}, x \in {"*", "none"}}
      \cup {<<f, Value(Meta(P[i]), f)>> : f \in {"real", "cont", "points", "count", "idx", "kind", "ft", "facet", "ts", "ti", "uom", "sl", "cat", "const"}, i \in Ids}
Q2 == {q \in Qs : q[2] = "*"} \cup {<<f, Value(Meta(P[5]), f)>> : f \in {"real", "kind", "facet", "ti", "cat"}}
Ask(c, q, title, mode) == [op |-> "select", c |-> c, q |-> q, title |-> title, mode |-> mode, extra |-> <<>>, rel |-> <<"", 0>>, pid |-> 0]
Pos == {"is", "starts", "ends", "contains"}
Neg == [is |-> "is not", starts |-> "does not start", ends |-> "does not end", contains |-> "does not contain"]

SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]
Ev(op, c) == [op |-> op, c |-> c, ids |-> <<>>, real |-> -1, res |-> [k |-> "ok"]]
Init == n = 0 /\ s = [props |-> P, coll |-> <<>>]
NewC(c) == \E S \in SUBSET {1, 3, 4}, real \in {-1, 7} : s' = PPost(s, [op |-> "coll", c |-> c, how |-> "parts", ids |-> SeqOf(S), real |-> real, sup |-> 1])
NewS(c) == \E sup \in 1..2 : s' = PPost(s, [op |-> "coll", c |-> c, how |-> "support", ids |-> <<>>, real |-> -1, sup |-> sup])
Drop(c) == \E i \in Ids : c \in DOMAIN s.coll /\ s' = PPost(s, [Ev("drop", c) EXCEPT !.ids = <<i>>])
Inherit(c, d) == \E how \in {"all", "times", "facets", "reals", "some"}, q \in Q2, x \in Ids :
    /\ {c, d} \subseteq DOMAIN s.coll /\ c # d /\ x \in s.coll[d].m
    /\ s' = PPost(s, [op |-> "inherit", c |-> c, d |-> d, how |-> how, example |-> x, q |-> <<q>>, title |-> <<>>, mode |-> "", ign |-> TRUE, res |-> [k |-> "ok"]])
Next == n < MaxSteps /\ n' = n + 1 /\ \E c, d \in 1..2 : NewC(c) \/ NewS(c) \/ Drop(c) \/ Inherit(c, d)
Spec == Init /\ [][Next]_<<s, n>>

Sel(c, q, title, mode) == Selected(s, Ask(c, q, title, mode))
\* no criterion selects everything; each more selects fewer, and the order of criteria is of no account
Everything == \A c \in DOMAIN s.coll : Sel(c, <<>>, <<>>, "") = s.coll[c].m
Conjunction == \A c \in DOMAIN s.coll, q, r \in Q2 : Sel(c, <<q, r>>, <<>>, "") = Sel(c, <<q>>, <<>>, "") \cap Sel(c, <<r>>, <<>>, "")
\* asking for any value and asking for none divides the collection, as does a mode and its negation
Partition == \A c \in DOMAIN s.coll : \A f \in {"real", "ft", "facet", "ts", "ti", "uom", "sl", "const"} :
    LET U == Sel(c, <<<<f, "*">>>>, <<>>, "")  V == Sel(c, <<<<f, "none">>>>, <<>>, "") IN U \cup V = s.coll[c].m /\ U \cap V = {}
Negation == \A c \in DOMAIN s.coll, title \in {A, AB, <<98>>} : \A mode \in Pos :
    LET U == Sel(c, <<>>, title, mode)  V == Sel(c, <<>>, title, Neg[mode]) IN U \cup V = s.coll[c].m /\ U \cap V = {}
Stronger == \A c \in DOMAIN s.coll, title \in {A, AB, <<98>>} :
    LET U(mode) == Sel(c, <<>>, title, mode) IN U("is") \subseteq U("starts") \cap U("ends") /\ U("starts") \cup U("ends") \subseteq U("contains")
\* members that carry a value are found by it
ByValue == \A c \in DOMAIN s.coll : \A i \in s.coll[c].m : \A f \in {"real", "kind", "idx", "facet", "ti", "uom"} :
    LET x == Value(Meta(s.props[i]), f) IN x = "None" \/ i \in Sel(c, <<<<f, x>>>>, <<>>, "")
\* the two names of permeability are one kind
OneKind == \A c \in DOMAIN s.coll : Sel(c, <<<<"kind", "permeability rock">>>>, <<>>, "") = Sel(c, <<<<"kind", "rock permeability">>>>, <<>>, "")
Inv == Everything /\ Conjunction /\ Partition /\ Negation /\ Stronger /\ ByValue /\ OneKind
=============================================================================
