------------------------------ MODULE MCPropArr ------------------------------
(* All short histories of two collections over three small properties.       *)
EXTENDS PropArr
CONSTANTS MaxSteps
VARIABLES s, n
Base == [id |-> 0, sup |-> 1, sk |-> "grid", dims |-> <<2, 1, 2>>, cont |-> TRUE, points |-> FALSE, cat |-> 0, title |-> "a", tc |-> <<97>>, kind |-> "porosity", idx |-> "",
         ft |-> "", facet |-> "", uom |-> "m", real |-> 0, ts |-> 0, ti |-> -1, count |-> 1, null |-> NIL, extra |-> <<>>, source |-> "", const |-> NIL, expand |-> FALSE,
         cbool |-> FALSE, v |-> <<4, NIL, -8, 12>>, shape |-> <<2, 1, 2>>, fo |-> 0]
P == << [Base EXCEPT !.id = 1], [Base EXCEPT !.id = 2, !.real = 2, !.v = <<0, 1, 2, 3>>], [Base EXCEPT !.id = 3, !.cont = FALSE, !.kind = "code", !.null = 2, !.v = <<1, 2, -1, 5>>] >>
Ids == 1..3
Ok == [k |-> "ok"]
Sels == {<<<<0, 1, 1>>>>, <<<<0, 2, 1>>, <<0, 1, 1>>, <<1, 2, 1>>>>}
Ev(op, c, i) == [op |-> op, c |-> c, i |-> i, res |-> Ok]
NE(c, i, fz, m) == [op |-> "norm", c |-> c, i |-> i, masked |-> m, dc |-> 0, trust |-> FALSE, fz |-> fz, res |-> Ok]
SE(c, fill) == [op |-> "stack", c |-> c, what |-> "reals", fill |-> fill, fv |-> NIL, b32 |-> FALSE, res |-> Ok]
Make == [op |-> "make", props |-> P, how |-> "list", c |-> 1, held |-> TRUE, res |-> Ok]
Init == n = 0 /\ s = APost(APost(APost(AInit, Make), [op |-> "active", sup |-> 1, v |-> <<1, 1, 0, 1>>, res |-> Ok]), [op |-> "coll", c |-> 2, ids |-> <<2, 1, 3>>, res |-> Ok])
Ops == {Ev("ref", c, i) : c \in 1..2, i \in Ids}
       \cup {[Ev("over", c, i) EXCEPT !.op = "over"] @@ [sel |-> q, update |-> u, v |-> <<7, 9>>] : c \in 1..2, i \in Ids, q \in Sels, u \in BOOLEAN}
       \cup {Ev("poke", c, i) @@ [at |-> 4, x |-> 6] : c \in 1..2, i \in Ids}
       \cup {Ev("uncache", c, i) @@ [ids |-> <<i>>] : c \in 1..2, i \in Ids}
       \cup {NE(c, i, fz, FALSE) : c \in 1..2, i \in Ids, fz \in {-1, 1}}
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Ops : s' = APost(s, e)
Spec == Init /\ [][Next]_<<s, n>>

Sizes == \A i \in Ids : Len(s.file[i]) = 4 /\ \A c \in 1..2 : Len(Arr(s, c, i)) = 4
\* what is not held is read from the file; what is held is not affected by another collection
Fresh == \A c \in 1..2, i \in Ids : Arr(APost(s, Ev("uncache", c, i) @@ [ids |-> <<i>>]), c, i) = s.file[i]
Apart == \A e \in Ops : e.op \in {"poke", "uncache"} => \A i \in Ids : Arr(APost(s, e), 3 - e.c, i) = Arr(s, 3 - e.c, i) /\ APost(s, e).file = s.file
\* an overwritten part reads back as written, the rest as before, from the file and through the collection used
Written == \A e \in Ops : e.op = "over" =>
    LET t == APost(s, e)  sh == <<2, 1, 2>>  F == H!FullSel(sh, e.sel)  at == {1 + H!Offset(sh, F, k) : k \in 0..1} IN
    /\ H!SelV(sh, e.sel, t.file[e.i]) = e.v
    /\ \A j \in (1..4) \ at : t.file[e.i][j] = s.file[e.i][j]
    /\ H!SelV(sh, e.sel, Arr(t, e.c, e.i)) = e.v
\* normalized values lie between the ends of the range
Between == \A c \in 1..2, i \in Ids, fz \in {-1, 0, 1, 2}, m \in BOOLEAN :
    LET e == NE(c, i, fz, m)  r == Norm(s, e) IN r.none \/ \A j \in 1..4 :
        r.q[j] = NIL \/ (m /\ MaskOf(s, s.props[i], r.q, FALSE)[j])
        \/ (r.span[1] <= r.span[2] /\ r.span[1] <= r.q[j] /\ r.q[j] <= r.span[2]) \/ (r.span[1] > r.span[2] /\ fz \in {0, 2})
\* the stack holds each array at its place
Stacked == \A fill \in BOOLEAN :
    LET t == [s EXCEPT !.coll[2].m = {1, 2}]  e == SE(2, fill)  q == Stack(t, e) IN
    /\ Len(q) = (IF fill THEN 12 ELSE 8) /\ SubSeq(q, 1, 4) = Arr(s, 2, 1) /\ SubSeq(q, Len(q) - 3, Len(q)) = Arr(s, 2, 2)
Faces == LET q == [j \in 1..12 |-> j] IN Combed(Discombed(q)) = q /\ Discombed(Combed(q)) = q /\ SubSeq(Combed(q), 1, 6) = <<1, 2, 3, 5, 6, 4>>
Inv == Sizes /\ Fresh /\ Apart /\ Written /\ Between /\ Stacked /\ Faces
=============================================================================
