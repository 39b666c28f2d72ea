--------------------------- MODULE MCStringLookup ---------------------------
EXTENDS StringLookup
CONSTANTS MaxLen, Keys, Vals
VARIABLES s, n
Init == s = LInit /\ n = 0
Set(k, v) == /\ n < MaxLen
             /\ s' = LPost(s, [op |-> "set", k |-> k, v |-> v])
             /\ n' = n + 1
Next == \E k \in Keys, v \in Vals : Set(k, v)
\* setting is seen, changes nothing else, and the last setting wins
Inv == /\ DOMAIN s.m \subseteq Keys
       /\ \A v \in Vals : \A k \in KeysOf(s.m, v) : s.m[k] = v
       /\ \A k \in Keys, v \in Vals : LET m == LPost(s, [op |-> "set", k |-> k, v |-> v]).m IN
             m[k] = v /\ \A j \in DOMAIN s.m \ {k} : m[j] = s.m[j]
=============================================================================
