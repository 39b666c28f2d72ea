------------------------------ MODULE MCEpcMerge ------------------------------
(* Design of the merge: objects are brought over one by one, each after the *)
(* objects it refers to; an object already there is not brought again and,  *)
(* with consolidation, an equivalent one stands in for it.                  *)
EXTENDS EpcMerge
CONSTANTS MaxId, MaxCopies, KINDS, TITLES
VARIABLES st, n, copies, last
vars == <<st, n, copies, last>>

\* bring object x of S into model M; gives [M, y]
RECURSIVE Bring(_, _, _, _, _), BringAll(_, _, _, _, _)
Bring(S, M, x, cons, real) ==
    IF x \in Ids(M) THEN [M |-> M, y |-> <<x>>]
    ELSE LET eq == {y \in Ids(M) : Equivalent(S.parts, x, M.parts, y)}
         IN IF cons /\ eq # {} THEN [M |-> M, y |-> <<CHOOSE y \in eq : TRUE>>]
            ELSE LET b == BringAll(S, M, S.parts[x].refs, cons, real)
                     o == [S.parts[x] EXCEPT !.refs = b.y, !.real = IF real >= 0 /\ S.parts[x].prop THEN real ELSE @]
                     M2 == [b.M EXCEPT !.parts = With(@, x, o)]
                     near == {y \in Ids(b.M) : \E d \in Ids(S) : /\ {x, d} \in S.soft
                                                               /\ (d = y \/ (cons /\ d \notin Ids(b.M) /\ Equivalent(S.parts, d, b.M.parts, y)))} \ Range(b.y)
                 IN [M |-> [M2 EXCEPT !.soft = @ \cup {{x, y} : y \in near}], y |-> <<x>>]
BringAll(S, M, q, cons, real) ==
    IF q = <<>> THEN [M |-> M, y |-> <<>>]
    ELSE LET b == Bring(S, M, Head(q), cons, real)
             c == BringAll(S, b.M, Tail(q), cons, real)
         IN [M |-> c.M, y |-> b.y \o c.y]

RECURSIVE OrderOf(_)
OrderOf(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE i \in X : \A j \in X : i <= j IN <<m>> \o OrderOf(X \ {m})

Init == st = EmptyM /\ n = 0 /\ copies = 0 /\ last = [bad |-> {}, again |-> TRUE]
Quiet == last' = [bad |-> {}, again |-> TRUE] /\ UNCHANGED copies
RefChoices(M, k) == IF k = "RockFluidUnitFeature" THEN {<<a, b>> : a, b \in {i \in Ids(M) : M.parts[i].kind = "BoundaryFeature"}}
                    ELSE IF k = "GenericProperty" THEN {<<>>} \cup {<<a>> : a \in Ids(M)} \cup {<<a, b>> : a, b \in Ids(M)}
                    ELSE {<<>>}
New(m) == /\ n < MaxId /\ copies = 0
          /\ \E k \in KINDS, t \in TITLES : \E r \in RefChoices(st[m], k) :
               st' = [st EXCEPT ![m].parts = With(@, n + 1, [kind |-> k, title |-> t, vary |-> <<>>, extra |-> {}, refs |-> r, arr |-> <<>>,
                                                             real |-> -1, fp |-> n + 1, prop |-> k = "GenericProperty"])]
          /\ n' = n + 1 /\ Quiet
Relate(m) == \E a, b \in Ids(st[m]) : a # b /\ {a, b} \notin Rel(st[m]) /\ copies = 0 /\ n = MaxId
                /\ (m = "src" => st.src.soft = {}) /\ st' = [st EXCEPT ![m] = Pair(@, a, b)] /\ UNCHANGED n /\ Quiet
Remove == \E a \in Ids(st.tgt) : copies > 0 /\ (\A b \in Ids(st.tgt) : a \notin Range(st.tgt.parts[b].refs)) /\ st' = [st EXCEPT !.tgt = Drop(@, a)] /\ UNCHANGED n /\ Quiet
Copy(P, cons, real) ==
    LET M2 == BringAll(st.src, st.tgt, OrderOf(P), cons, real).M
    IN /\ copies < MaxCopies
       /\ st' = [st EXCEPT !.tgt = M2]
       /\ last' = [bad |-> MergeBad(st.src, st.tgt, M2, P, cons, real, <<>>), again |-> BringAll(st.src, M2, OrderOf(P), cons, real).M = M2]
       /\ copies' = copies + 1 /\ UNCHANGED n
Next == \/ \E m \in {"src", "tgt"} : New(m) \/ Relate(m)
        \/ Remove
        \/ \E cons \in BOOLEAN, real \in {-1, 7} : Copy(Ids(st.src), cons, real) \/ \E p \in Ids(st.src) : Copy({p}, cons, real)
Spec == Init /\ [][Next]_vars
\* the merge meets its requirements, merging again adds nothing, and the result is closed
MergeMeets == last.bad = {}
MergeIdempotent == last.again
TargetClosed == Closed(st.tgt) /\ \A q \in st.tgt.soft : q \subseteq Ids(st.tgt)
=============================================================================
