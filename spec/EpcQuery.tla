------------------------------ MODULE EpcQuery ------------------------------
(* Queries of the catalogue.  Titles, class names, uuids and time stamps are *)
(* sequences of character codes, so that the specification itself decides    *)
(* prefixes, substrings, letter case and order.                              *)
EXTENDS EpcCatalogue, Integers

EmptyQ == [cat |-> EmptyCat, order |-> <<>>, attr |-> <<>>, disk |-> <<>>]

\* ---- text
Up(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE IF c = 233 THEN 201 ELSE c
Upper(q) == [i \in DOMAIN q |-> Up(q[i])]
RECURSIVE LStrip(_), RStrip(_)
LStrip(q) == IF q # <<>> /\ q[1] = 32 THEN LStrip(Tail(q)) ELSE q
RStrip(q) == IF q # <<>> /\ q[Len(q)] = 32 THEN RStrip(SubSeq(q, 1, Len(q) - 1)) ELSE q
Strip(q) == RStrip(LStrip(q))
Starts(q, p) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Ends(q, p) == Len(p) <= Len(q) /\ SubSeq(q, Len(q) - Len(p) + 1, Len(q)) = p
Contains(q, p) == \E i \in 0..Len(q) - Len(p) : SubSeq(q, i + 1, i + Len(p)) = p
RECURSIVE LexLeq(_, _)
LexLeq(p, q) == IF p = <<>> THEN TRUE
                ELSE IF q = <<>> THEN FALSE
                ELSE IF p[1] # q[1] THEN p[1] < q[1]
                ELSE LexLeq(Tail(p), Tail(q))

TitleHit(own, asked, mode, cs) ==
    LET a == IF cs THEN Strip(own) ELSE Upper(Strip(own))
        b == IF cs THEN Strip(asked) ELSE Upper(Strip(asked))
    IN CASE mode = "is" -> a = b
         [] mode = "starts" -> Starts(a, b)
         [] mode = "ends" -> Ends(a, b)
         [] mode = "contains" -> Contains(a, b)
         [] mode = "is not" -> a # b
         [] mode = "does not start" -> ~Starts(a, b)
         [] mode = "does not end" -> ~Ends(a, b)
         [] mode = "does not contain" -> ~Contains(a, b)

\* ---- the query: q has a field for each argument, "given" flags say which were passed
Hit(s, q, a) ==
    /\ q.has_list => a \in Range(q.list)
    /\ q.has_uuid => a = q.uuid
    /\ q.has_type => s.cat.parts[a].kind = q.type
    /\ q.has_sub => Starts(s.attr[a].sub \o <<47>>, q.sub)
    /\ q.has_title => TitleHit(s.attr[a].title, q.title, q.mode, q.cs)
    /\ \A i \in DOMAIN q.metadata : q.metadata[i] \in Range(s.attr[a].meta)
    /\ \A i \in DOMAIN q.extra : q.extra[i] \in s.cat.parts[a].extra
    /\ q.has_rel => CASE q.relmode = 0 -> a \in Ref(s.cat, q.rel)
                      [] q.relmode = 1 -> a \in RefBy(s.cat, q.rel)
                      [] q.relmode = 2 -> a \in Soft(s.cat, q.rel)
                      [] q.relmode = 9 -> a \in Related(s.cat, q.rel)

Base(s, q) == IF q.has_list THEN q.list ELSE s.order
Matches(s, q) == SelectSeq(Base(s, q), LAMBDA a : a \in Present(s.cat) /\ Hit(s, q, a))

Key(s, by, a) == CASE by = "title" -> s.attr[a].title
                   [] by = "uuid" -> s.attr[a].uuid
                   [] by = "type" -> s.attr[a].name
                   [] by \in {"newest", "oldest"} -> s.attr[a].created
InOrder(s, by, q) ==
    \/ by = "none"
    \/ by = "type" /\ \E a \in Range(q) : s.attr[a].sub # <<>>   \* the order is that of part names
    \/ \A i \in 1..Len(q) - 1 :
        IF by = "newest" THEN LexLeq(Key(s, by, q[i + 1]), Key(s, by, q[i]))
        ELSE LexLeq(Key(s, by, q[i]), Key(s, by, q[i + 1]))

ListBad(s, q, r) ==
    LET m == Matches(s, q)
    IN  (IF ~SameBag(r.parts, m) THEN {"parts_are_the_matches"} ELSE {})
        \cup (IF q.sort = "none" /\ r.parts # m THEN {"catalogue_order"} ELSE {})
        \cup (IF SameBag(r.parts, m) /\ ~InOrder(s, q.sort, r.parts) THEN {"requested_order"} ELSE {})
        \cup (IF r.roots # r.parts THEN {"roots_agree_with_parts"} ELSE {})
        \cup (IF r.uuids # r.parts THEN {"uuids_agree_with_parts"} ELSE {})
        \cup (IF SameBag(r.parts, m) /\ r.titles # [i \in DOMAIN r.parts |-> s.attr[r.parts[i]].title]
              THEN {"titles_agree_with_parts"} ELSE {})

\* single object forms: 0 is None, -1 the documented exception, -2 anything else
SingleOk(s, q, how, x) ==
    LET m == Matches(s, q)
        S == Range(m)
        At(by, a) == Key(s, by, a)
    IN IF m = <<>> THEN x = 0
       ELSE IF Len(m) = 1 THEN x = m[1]
       ELSE CASE how = "exception" -> x = -1
              [] how = "none" -> x = 0
              [] how = "first" -> x = m[1]
              [] how = "newest" -> x \in S /\ \A a \in S : LexLeq(At("newest", a), At("newest", x))
              [] how = "oldest" -> x \in S /\ \A a \in S : LexLeq(At("newest", x), At("newest", a))
SingleBad(s, q, r) ==
    UNION {LET z == r.single[i] IN
              (IF ~SingleOk(s, q, z.how, z.part) THEN {"single_" \o z.how} ELSE {})
              \cup (IF z.uuid # z.part \/ z.root # z.part THEN {"single_forms_agree"} ELSE {})
              \cup (IF z.part > 0 /\ z.part \in Present(s.cat) /\ z.title # s.attr[z.part].title THEN {"single_title"} ELSE {})
              \cup (IF z.part <= 0 /\ z.title # <<z.part>> THEN {"single_title"} ELSE {})
           : i \in DOMAIN r.single}

\* ---- transitions
QPost(s, e) ==
    CASE e.op = "new" -> [s EXCEPT !.cat = NewPart(@, e), !.order = Append(@, e.id), !.attr = With(@, e.id, [e.attr EXCEPT !.title = Strip(@)])]
      [] e.op = "relate" -> [s EXCEPT !.cat = Relate(@, e)]
      [] e.op = "remove" -> [s EXCEPT !.cat = RemovePart(@, e), !.order = SelectSeq(@, LAMBDA a : a # e.id)]
      [] e.op = "cycle" -> [s EXCEPT !.cat = Reopen(Store(@, [only |-> FALSE]))]
      [] e.op = "query" -> s

QBad(s, e) ==
    IF e.res.k # "ok" THEN {"operation_raises"}
    ELSE IF e.op = "query" THEN ListBad(s, e, e.res) \cup SingleBad(s, e, e.res)
    ELSE IF e.op = "new" /\ (e.id \in DOMAIN s.attr \/ ~(Range(e.refs) \subseteq Present(s.cat))) THEN {"driver_left_domain"}
    ELSE {}
=============================================================================
