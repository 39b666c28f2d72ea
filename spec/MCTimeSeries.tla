------------------------------ MODULE MCTimeSeries ------------------------------
(* All short histories of one series over a few stamps around a month's end;   *)
(* and the calendar over four centuries.                                       *)
EXTENDS TimeSeries
CONSTANTS MaxSteps
VARIABLES s, n
X == {<<2000, 2, 28, 0, 0>>, <<2000, 2, 29, 172799, 2>>, <<2000, 3, 1, 0, 1>>, <<1999, 12, 31, 86400, 2>>, <<2000, 2, 29, 0, 0>>}
Ok0 == [k |-> "ok"]
Ops == {[op |-> "add", n |-> 1, t |-> t, ins |-> i, res |-> Ok0] : t \in X, i \in BOOLEAN} \cup {[op |-> "extend", n |-> 1, dur |-> d, res |-> Ok0] : d \in {<<0, 0, 0, 0>>, <<1, 0, 0, 1>>, <<366, -12, 0, 0>>}}
Init == n = 0 /\ \E t \in X : s = TsPost(TsInit, [op |-> "new", n |-> 1, t |-> t, n4 |-> <<0, 0, 0, 0>>])
Next == n < MaxSteps /\ n' = n + 1 /\ \E e \in Ops : s' = TsPost(s, e)
Spec == Init /\ [][Next]_<<s, n>>
q == s[1]
Order == Sorted(q)
\* the two neighbours of any time agree with each other and with the nearest
Neighbours == \A x \in X : LET a == NotLater(q, x)  b == NotEarlier(q, x) IN
    /\ (a >= 0 => (TLeq(q[a + 1], x) /\ (a + 1 < Len(q) => TLess(x, q[a + 2]))))
    /\ (b >= 0 => (TLeq(x, q[b + 1]) /\ (b > 0 => TLess(q[b], x))))
    /\ (IndexOf(q, x) >= 0 => (b <= IndexOf(q, x) /\ IndexOf(q, x) <= a))
    /\ (\E i \in Closest(q, x) : TRUE) /\ \A i \in Closest(q, x) : (Gap(q[i + 1], x) = <<0, 0>>) \/ i \in {a, b} \/ (a >= 0 /\ Time(q[i + 1]) = Time(q[a + 1])) \/ (b >= 0 /\ Time(q[i + 1]) = Time(q[b + 1]))
Spans == \A i, j \in 0..Len(q) - 1 : i <= j => (Plus(Time(q[i + 1]), Between(q, i, j)) = Time(q[j + 1]))
Same == Equivalent(q, q, 0) /\ Sort(q) = q /\ Chosen(q, [i \in DOMAIN q |-> Len(q) - i]) = q
Inv == Order /\ Neighbours /\ Spans /\ Same
\* each day of the calendar has one date and follows the one before
Calendar == \A k \in -25570..54800 : LET c == Civil(k)  d == Civil(k + 1) IN
    /\ DayNo(c[1], c[2], c[3]) = k
    /\ (IF c[3] < MonthLen(c[1], c[2]) THEN d = <<c[1], c[2], c[3] + 1>> ELSE IF c[2] < 12 THEN d = <<c[1], c[2] + 1, 1>> ELSE d = <<c[1] + 1, 1, 1>>)
ASSUME Calendar /\ Civil(0) = <<1970, 1, 1>>
=============================================================================
