----------------------------- MODULE MCEpcQuery -----------------------------
(* All small catalogues and all queries over them: algebraic laws that the   *)
(* filters have to satisfy.                                                  *)
EXTENDS EpcQuery
CONSTANTS Ids, Titles, MaxParts
VARIABLE s
SomeTitles == {<<97, 66>>, <<97>>, <<65, 98, 97>>, <<32, 66>>}
Asked == Titles \ {<<>>}
Attr(n, t) == [title |-> t, meta |-> <<>>, uuid |-> <<n>>, name |-> <<n>>, created |-> <<n % 2>>, sub |-> <<>>]
NewQ == \E n \in Ids \ DOMAIN s.attr : (\A m \in Ids \ DOMAIN s.attr : n <= m) /\ Cardinality(DOMAIN s.attr) < MaxParts
          /\ \E t \in Titles : \E R \in SUBSET Present(s.cat) :
               s' = QPost(s, [op |-> "new", id |-> n, kind |-> "K", title |-> "t", extra |-> <<>>,
                              refs |-> CHOOSE q \in [1..Cardinality(R) -> R] : Range(q) = R, rel |-> TRUE, attr |-> Attr(n, t)])
RelateQ == \E a, b \in Present(s.cat) : a # b /\ Len(s.cat.rels[a]) < 2
          /\ s' = QPost(s, [op |-> "relate", a |-> a, ra |-> "x", b |-> b, rb |-> "y", avoid |-> TRUE])
RemoveQ == \E a \in Present(s.cat) : s' = QPost(s, [op |-> "remove", id |-> a, rr |-> TRUE])
Init == s = EmptyQ
Next == NewQ \/ RelateQ \/ RemoveQ

Plain == [has_list |-> FALSE, list |-> <<>>, has_uuid |-> FALSE, uuid |-> 0, has_type |-> FALSE, type |-> "", has_title |-> FALSE, title |-> <<>>,
          has_sub |-> FALSE, sub |-> <<>>, mode |-> "is", cs |-> FALSE, metadata |-> <<>>, extra |-> <<>>, has_rel |-> FALSE, rel |-> 0, relmode |-> 9, sort |-> "none"]
ByTitle(t, m, c) == [Plain EXCEPT !.has_title = TRUE, !.title = t, !.mode = m, !.cs = c]
ByRel(a, m) == [Plain EXCEPT !.has_rel = TRUE, !.rel = a, !.relmode = m]
Set(q) == Range(Matches(s, q))
Opp == [m \in {"is", "starts", "ends", "contains"} |->
          CASE m = "is" -> "is not" [] m = "starts" -> "does not start" [] m = "ends" -> "does not end" [] m = "contains" -> "does not contain"]
AllParts == Set(Plain) = Present(s.cat) /\ Len(Matches(s, Plain)) = Cardinality(Present(s.cat))
Complement == \A t \in Asked : \A m \in DOMAIN Opp : \A c \in BOOLEAN :
    /\ Set(ByTitle(t, m, c)) \cup Set(ByTitle(t, Opp[m], c)) = Present(s.cat)
    /\ Set(ByTitle(t, m, c)) \cap Set(ByTitle(t, Opp[m], c)) = {}
Nested == \A t \in Asked : \A c \in BOOLEAN :
    /\ Set(ByTitle(t, "is", c)) \subseteq Set(ByTitle(t, "starts", c)) \cap Set(ByTitle(t, "ends", c))
    /\ Set(ByTitle(t, "starts", c)) \cup Set(ByTitle(t, "ends", c)) \subseteq Set(ByTitle(t, "contains", c))
CaseMonotone == \A t \in Asked : \A m \in DOMAIN Opp : Set(ByTitle(t, m, TRUE)) \subseteq Set(ByTitle(t, m, FALSE))
Converse == \A a, b \in Present(s.cat) : (b \in Set(ByRel(a, 0))) = (a \in Set(ByRel(b, 1)))
ModesPartition == \A a \in Present(s.cat) : Set(ByRel(a, 9)) = Set(ByRel(a, 0)) \cup Set(ByRel(a, 1)) \cup Set(ByRel(a, 2))
=============================================================================
