---------------------------- MODULE StringLookup ----------------------------
(* A string table lookup: a finite map from integers to strings, changed    *)
(* one entry at a time, asked in both directions, stored and read back.     *)
(* The map is held as the sequence of its keys and the one of its values,   *)
(* in increasing order of key.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LInit == [m |-> <<>>]
Map(e) == [k \in {e.keys[i] : i \in DOMAIN e.keys} |-> e.vals[CHOOSE i \in DOMAIN e.keys : e.keys[i] = k]]
KeysOf(m, v) == {k \in DOMAIN m : m[k] = v}
Agrees(m, o) == /\ Cardinality(DOMAIN m) = Len(o.keys) /\ Len(o.keys) = Len(o.vals)
                /\ \A i \in DOMAIN o.keys : o.keys[i] \in DOMAIN m /\ m[o.keys[i]] = o.vals[i]
                /\ \A i \in 1..(Len(o.keys) - 1) : o.keys[i] < o.keys[i + 1]
LPost(s, e) == CASE e.op = "new" -> [m |-> Map(e)]
                 [] e.op = "set" -> [m |-> (e.k :> e.v) @@ s.m]
                 [] OTHER -> s
LBad(s, e) ==
    IF e.res.k # "ok" THEN {"raised"}
    ELSE LET m == LPost(s, e).m IN
         CASE e.op = "get" -> {x \in {"string_for_key"} : IF e.k \in DOMAIN m THEN e.res.v # m[e.k] ELSE e.res.v # "(none)"}
           [] e.op = "index" -> {x \in {"key_for_string"} : IF KeysOf(m, e.v) = {} THEN e.res.v # "(none)" ELSE e.res.v \notin {ToString(k) : k \in KeysOf(m, e.v)}}
           [] e.op = "list" -> {x \in {"list"} : e.res.v # [i \in 1..Len(e.res.order) |-> m[e.res.order[i]]] \/ {e.res.order[i] : i \in DOMAIN e.res.order} # DOMAIN m}
           [] OTHER -> {x \in {"content"} : ~ Agrees(m, e.obs)}
=============================================================================
