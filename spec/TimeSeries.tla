------------------------------ MODULE TimeSeries ------------------------------
(* Time series.  A time is <<day, half>>: days since 1970-01-01 and half      *)
(* seconds since midnight.  A stamp is a time with the format of its text:    *)
(* 0 date only, 1 date and time, 2 the same with a Z.  In events a stamp is   *)
(* <<year, month, day, half seconds, format>>.  Geologic stamps are <<years>>.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

DAY == 172800
Mod(x, y) == x - y * (x \div y)
\* ---- the calendar
Leap(y) == (Mod(y, 4) = 0 /\ Mod(y, 100) # 0) \/ Mod(y, 400) = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DayNo(y, m, d) == LET z == IF m <= 2 THEN y - 1 ELSE y
                      era == z \div 400
                      yoe == z - era * 400
                      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
                  IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
Civil(n) == LET z == n + 719468
                era == z \div 146097
                doe == z - era * 146097
                yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
                doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
                mp == (5 * doy + 2) \div 153
                m == IF mp < 10 THEN mp + 3 ELSE mp - 9
            IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>

Time(x) == <<DayNo(x[1], x[2], x[3]), x[4]>>
Stamp(t, f) == Civil(t[1]) \o <<t[2], f>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == ~ Less(b, a)
\* durations are also <<days, half seconds>>, the latter within a day
Norm(d, h) == <<d + h \div DAY, Mod(h, DAY)>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Diff(a, b) == Norm(a[1] - b[1], a[2] - b[2])   \* a - b
Neg(a) == Norm(-a[1], -a[2])
Abs(a) == IF a[1] < 0 THEN Neg(a) ELSE a
Dur(e) == Norm(e.dur[1], 2 * (3600 * e.dur[2] + 60 * e.dur[3] + e.dur[4]))

\* ---- series
Geo(q) == q # <<>> /\ Len(q[1]) = 1
TLess(x, y) == IF Len(x) = 1 THEN x[1] < y[1] ELSE Less(Time(x), Time(y))
TLeq(x, y) == ~ TLess(y, x)
Sorted(q) == \A i \in 1..Len(q) - 1 : TLeq(q[i], q[i + 1])
RECURSIVE Put(_, _)
Put(q, x) == IF q = <<>> THEN <<x>> ELSE IF TLeq(q[Len(q)], x) THEN Append(q, x) ELSE Append(Put(SubSeq(q, 1, Len(q) - 1), x), q[Len(q)])
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>> ELSE Put(Sort(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
Ext(q, d) == Append(q, Stamp(Plus(Time(q[Len(q)]), d), 2))
RECURSIVE ExtN(_, _, _)
ExtN(q, n, days) == IF n = 0 THEN q ELSE ExtN(Ext(q, <<days, 0>>), n - 1, days)
New(e) == ExtN(ExtN(ExtN(ExtN(<<e.t>>, e.n4[1], 1), e.n4[2], 30), e.n4[3], 90), e.n4[4], 365)

Last(q) == q[Len(q)]
\* indices from 0; -1 for none
NotLater(q, x) == LET S == {i \in DOMAIN q : TLeq(q[i], x)} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : j <= i) - 1
NotEarlier(q, x) == LET S == {i \in DOMAIN q : TLeq(x, q[i])} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
IndexOf(q, x) == LET S == {i \in DOMAIN q : q[i] = x} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1
Gap(a, b) == Abs(Diff(Time(a), Time(b)))
Closest(q, x) == {i - 1 : i \in {k \in DOMAIN q : \A j \in DOMAIN q : Leq(Gap(q[k], x), Gap(q[j], x))}}

\* ---- forms
Clean(x) == IF x[5] = 0 \/ x[4] \div 2 = 0 THEN <<x[1], x[2], x[3], 0, 0>> ELSE <<x[1], x[2], x[3], 2 * (x[4] \div 2), 2>>
Simple(x) == LET c == Clean(x) IN IF c[5] = 0 THEN c ELSE [c EXCEPT ![5] = 3]
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : TLeq(x, y) IN <<x>> \o SeqOf(S \ {x})
Uniq(S) == {x \in S : TRUE}
\* merging: the distinct times of all of them
Merged(s, ns) == LET A == UNION {Range(s[n]) : n \in Range(ns)} IN
                 IF \E x \in A : Len(x) = 1 THEN SeqOf(A)
                 ELSE SeqOf({LET c == Time(x) IN Clean(Stamp(c, 2)) : x \in A})
Older(y) == IF y > 0 THEN -y ELSE y
FromList(e) == IF Len(e.l[1]) = 1 THEN Sort([i \in DOMAIN e.l |-> <<Older(e.l[i][1])>>]) ELSE Sort([i \in DOMAIN e.l |-> Clean(e.l[i])])
Distinct(q) == \A i, j \in DOMAIN q : i # j => (TLess(q[i], q[j]) \/ TLess(q[j], q[i]))
Chosen(q, l) == LET k == Sort([i \in DOMAIN l |-> <<l[i]>>]) IN [i \in DOMAIN k |-> q[k[i][1] + 1]]
Equivalent(a, b, tol) ==
    Len(a) = Len(b) /\ (a = <<>> \/ (Geo(a) <=> Geo(b))) /\
    (IF Geo(a) THEN a = b ELSE \A i \in DOMAIN a : Leq(Gap(a[i], b[i]), Norm(0, 2 * tol)))

\* ---- steps reported by a simulator: entries <<number, quarter days since the start>>, in any order
ELess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE EPut(_, _)
EPut(q, x) == IF q = <<>> THEN <<x>> ELSE IF ELess(x, q[Len(q)]) THEN Append(EPut(SubSeq(q, 1, Len(q) - 1), x), q[Len(q)]) ELSE Append(q, x)
RECURSIVE ESort(_)
ESort(q) == IF q = <<>> THEN <<>> ELSE EPut(ESort(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
QDays(k) == Norm(k \div 4, Mod(k, 4) * 43200)
\* st: stamps so far, last step, last cumulative time; missing steps repeat the time of the step before, as do steps that go back in time
RECURSIVE Fill(_, _)
Fill(q, k) == IF k <= 0 THEN q ELSE Fill(Ext(q, <<0, 0>>), k - 1)
RECURSIVE Report(_, _)
Report(l, st) ==
    IF l = <<>> THEN st.q
    ELSE IF l[1][1] <= st.step THEN Report(Tail(l), st)
    ELSE LET q == Fill(st.q, l[1][1] - st.step - 1)  back == l[1][2] < st.cum IN
         Report(Tail(l), [q |-> Ext(q, IF back THEN <<0, 0>> ELSE QDays(l[1][2] - st.cum)), step |-> l[1][1], cum |-> IF back THEN st.cum ELSE l[1][2]])
Nexus(e) == LET l == ESort(e.l)
                d0 == IF e.date = <<>> THEN (IF e.start = <<>> THEN <<2020, 1, 1>> ELSE e.start) ELSE e.date
                n0 == DayNo(d0[1], d0[2], d0[3]) - (IF e.date # <<>> /\ l[1][1] > 0 THEN l[1][2] \div 4 ELSE 0)
            IN Report(l, [q |-> <<Stamp(<<n0, 0>>, 2)>>, step |-> 0, cum |-> 0])

TsInit == <<>>
AddOk(s, e) == e.ins \/ s[e.n] = <<>> \/ TLess(Last(s[e.n]), e.t)
Set(s, n, q) == (n :> q) @@ s
TsPost(s, e) ==
    CASE e.op = "new" -> Set(s, e.n, New(e))
      [] e.op = "geo" -> Set(s, e.n, Sort([i \in DOMAIN e.l |-> <<Older(e.l[i])>>]))
      [] e.op = "add" -> IF ~ AddOk(s, e) THEN s
                         ELSE Set(s, e.n, IF e.ins THEN LET k == NotLater(s[e.n], e.t) + 1 IN SubSeq(s[e.n], 1, k) \o <<e.t>> \o SubSeq(s[e.n], k + 1, Len(s[e.n])) ELSE Append(s[e.n], e.t))
      [] e.op = "extend" -> IF Dur(e)[1] < 0 THEN s ELSE Set(s, e.n, Ext(s[e.n], Dur(e)))
      [] e.op = "nexus" -> Set(s, e.n, Nexus(e))
      [] e.op = "load" -> Set(s, e.n, Sort(s[e.from]))
      [] e.op = "list" -> IF Distinct(FromList(e)) \/ Geo(FromList(e)) THEN Set(s, e.n, FromList(e)) ELSE s
      [] e.op = "merge" -> Set(s, e.n, Merged(s, e.ns))
      [] e.op = "choose" -> Set(s, e.n, Chosen(s[e.from], e.l))
      [] OTHER -> s

Raised(e) == e.res.k # "ok"
Ok(e, b) == IF Raised(e) THEN {e.op \o "_raised"} ELSE {x \in {e.op} : ~ b}
Between(q, i, j) == IF i < 0 \/ j >= Len(q) \/ j < i THEN <<>> ELSE Diff(Time(q[j + 1]), Time(q[i + 1]))
TsBad(s, e) ==
    LET t == TsPost(s, e) IN
    CASE e.op = "add" -> IF AddOk(s, e) THEN Ok(e, e.obs = t[e.n]) ELSE {x \in {"disorder_accepted"} : ~ Raised(e)}
      [] e.op = "extend" -> IF Dur(e)[1] < 0 THEN {x \in {"negative_accepted"} : ~ Raised(e)} ELSE Ok(e, e.obs = t[e.n])
      [] e.op = "list" -> IF Distinct(FromList(e)) \/ Geo(FromList(e)) THEN Ok(e, e.obs = t[e.n]) ELSE {x \in {"repeats_accepted"} : ~ Raised(e)}
      [] e.op \in {"new", "geo", "nexus", "load", "merge", "choose"} -> Ok(e, e.obs = t[e.n])
      [] e.op = "find" -> Ok(e, LET q == s[e.n] IN /\ e.obs.eq = IndexOf(q, e.t) /\ e.obs.le = NotLater(q, e.t) /\ e.obs.ge = NotEarlier(q, e.t)
                                                   /\ (IF q = <<>> THEN e.obs.near = -1 ELSE e.obs.near \in Closest(q, e.t)))
      [] e.op = "geofind" -> Ok(e, e.obs = IndexOf(s[e.n], e.t))
      [] e.op = "stamp" -> Ok(e, LET q == s[e.n]  i == IF e.i < 0 THEN e.i + Len(q) ELSE e.i IN
                                  /\ e.obs.at = (IF i \in 0..Len(q) - 1 THEN q[i + 1] ELSE <<>>) /\ e.obs.n = Len(q) /\ e.obs.last = Last(q) /\ e.obs.all = q)
      [] e.op = "span" -> Ok(e, LET q == s[e.n]  i == e.i  j == e.j IN
                                 /\ e.obs.dur = Between(q, i, j) /\ e.obs.days = (IF Between(q, i, j) = <<>> THEN <<>> ELSE <<Between(q, i, j)[1]>>)
                                 /\ e.obs.start = Between(q, 0, j) /\ e.obs.step = (IF j < 1 THEN <<>> ELSE Between(q, j - 1, j))
                                 /\ e.obs.stepdays = (IF j < 1 \/ Between(q, j - 1, j) = <<>> THEN <<>> ELSE <<Between(q, j - 1, j)[1]>>)
                                 /\ e.obs.startdays = (IF Between(q, 0, j) = <<>> THEN <<>> ELSE <<Between(q, 0, j)[1]>>))
      [] e.op = "after" -> Ok(e, /\ e.obs.after = Stamp(Plus(Time(e.t), Dur(e)), 2) /\ e.obs.before = Stamp(Plus(Time(e.t), Neg(Dur(e))), 2) /\ e.obs.dur = Diff(Time(e.u), Time(e.t)))
      [] e.op = "forms" -> Ok(e, /\ e.obs.clean = Clean(e.t) /\ e.obs.simple = Simple(e.t) /\ e.obs.uk = <<e.t[3], e.t[2], e.t[1]>> /\ e.obs.us = <<e.t[2], e.t[3], e.t[1]>>)
      [] e.op = "equal" -> Ok(e, e.obs = Equivalent(s[e.a], s[e.b], e.tol))
      [] OTHER -> {x \in {"raised"} : Raised(e)}
=============================================================================
