---------------------------- MODULE MCEpcPackage ----------------------------
EXTENDS EpcPackage, Json
CONSTANTS IdSet, Names, KindSet, MaxLen, Gen
VARIABLES s, used, n, hist
vars == <<s, used, n, hist>>
Pick(S) == IF Gen /\ S # {} THEN {RandomElement(S)} ELSE S

NextId == CHOOSE a \in IdSet \ used : \A b \in IdSet \ used : a <= b
SeqOf(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
            IN F(S)
Crs(q) == {a \in Ids(q) : q.cat.parts[a].kind = "LocalDepth3dCrs"}
\* a point set has one array and refers to a crs
NewEvents(q) ==
    IF IdSet \ used = {} THEN {}
    ELSE LET i == NextId
             E(k, refs, rel, arr) == [op |-> "new", id |-> i, kind |-> k, title |-> "t" \o ToString(i % 2), extra |-> IF i % 3 = 0 THEN << <<"k", "v">> >> ELSE <<>>,
                                      refs |-> refs, rel |-> rel, arr |-> arr, fp |-> i]
         IN {E("LocalDepth3dCrs", <<>>, TRUE, <<>>)}
            \cup {E(k, SeqOf(B), rel /\ \A b \in B : HasRp(q.cat, b), <<>>) : k \in KindSet, B \in {B \in SUBSET Ids(q) : Cardinality(B) <= 2}, rel \in BOOLEAN}
            \cup {E("PointSetRepresentation", <<c>>, HasRp(q.cat, c), <<i, 7, n>>) : c \in {c \in Crs(q) : HasRp(q.cat, c)}}
Edits(q) ==
    NewEvents(q)
    \cup {[op |-> "relate", a |-> p[1], ra |-> "sourceObject", b |-> p[2], rb |-> "destinationObject", avoid |-> TRUE] : p \in {p \in Ids(q) \X Ids(q) : p[1] # p[2] /\ HasRp(q.cat, p[1]) /\ HasRp(q.cat, p[2])}}
    \cup {[op |-> "remove", id |-> a, rr |-> TRUE] : a \in {a \in Ids(q) : \A b \in Ids(q) : a \notin q.cat.parts[b].refs}}
    \cup {[op |-> "setsrc", id |-> a, value |-> "s" \o ToString(n % 2), fp |-> 100 + a] : a \in Ids(q)}
    \cup {[op |-> "patch", id |-> a, title |-> "t" \o ToString(n % 2), fp |-> 300 + a] : a \in Ids(q)}
    \cup (IF IdSet \ used = {} THEN {} ELSE {[op |-> "copy", id |-> a, new |-> NextId, fp |-> 400 + a] : a \in {a \in Ids(q) : q.cat.parts[a].kind # "PointSetRepresentation"}})
    \cup {[op |-> "rmext", id |-> a, fp |-> 200 + a] : a \in Ids(q)}
    \cup {[op |-> "setarr", id |-> a, arr |-> <<a, 8, n>>] : a \in Ids(q) \cap DOMAIN q.h5s[q.h5]}

Do(e) == /\ PEnabled(s, e)
         /\ s' = PPost(s, e)
         /\ n' = n + 1
         /\ hist' = IF Gen THEN Append(hist, e) ELSE hist
         /\ used' = used \cup (IF e.op \in {"edit", "ctx"} /\ e.edit.op \in {"new", "copy"} THEN {IF e.edit.op = "new" THEN e.edit.id ELSE e.edit.new} ELSE {})
EditOps(q) == {"new", "new", "relate", "remove", "setsrc", "rmext", "setarr"}
EditAny == Live(s) /\ \E k \in Pick({e.op : e \in Edits(s)}) : \E d \in Pick({e \in Edits(s) : e.op = k}) : Do([op |-> "edit", edit |-> d])
Stores == {[op |-> "store", to |-> to, only |-> only] : to \in {""} \cup Names, only \in BOOLEAN}
Opens == {[op |-> "open", name |-> m, full |-> full, ovr |-> o] : m \in Names, full \in BOOLEAN, o \in {"full", "dir"}}
Copies == {[op |-> "copyopen", from |-> f, name |-> m] : f \in Names, m \in Names}
Creates == {[op |-> "create", name |-> m] : m \in Names}
Nothing == [op |-> "nothing"]
Ctxs == {[op |-> "ctx", name |-> m, mode |-> mode, fail |-> fail, edit |-> Nothing] : m \in Names, mode \in {"r", "rw", "c", "read", "read/write", "create"}, fail \in BOOLEAN}
On(S) == {e \in S : PEnabled(s, e)}
AnyOf(S) == \E e \in Pick(On(S)) : Do(e)
CtxAny == \E e0 \in Pick(On(Ctxs)) : \E d \in Pick({Nothing} \cup {d \in Edits(Entered(s, e0)) : EditOk(Entered(s, e0), d)}) : Do([e0 EXCEPT !.edit = d])
Init == s = EmptyP /\ used = {} /\ n = 0 /\ hist = <<>>
Next == n < MaxLen /\ (EditAny \/ AnyOf(Stores) \/ AnyOf(Opens) \/ AnyOf(Copies) \/ AnyOf(Creates) \/ CtxAny)
Choices == {"open", "openf", "ctx", "ctx2"}
           \cup (IF s.full THEN {"edit", "edit2", "edit3", "edit4", "store", "store2", "read"} ELSE {})
           \cup (IF On(Copies) # {} THEN {"copy"} ELSE {}) \cup (IF n > 8 /\ On(Creates) # {} THEN {"create"} ELSE {})
GenNext == /\ n < MaxLen
           /\ IF s.name = "" THEN AnyOf(Creates)
              ELSE IF n < 5 \/ (DOMAIN s.files = {} /\ s.full) THEN (IF n > 4 /\ n % 2 = 1 THEN AnyOf(Stores) ELSE EditAny)
              ELSE \E c \in Pick(Choices) :
                CASE c = "create" -> AnyOf(Creates)
                  [] c \in {"store", "store2"} -> AnyOf({e \in Stores : e.to = "" \/ ~e.only})
                  [] c = "open" -> AnyOf(Opens)
                  [] c = "openf" -> AnyOf({e \in Opens : e.full})
                  [] c = "copy" -> AnyOf(Copies)
                  [] c \in {"ctx", "ctx2"} -> CtxAny
                  [] c = "read" -> Do([op |-> "read"])
                  [] OTHER -> EditAny
View == <<s, used, n>>

\* ---- design properties
ArraysAvailable == \A m \in DOMAIN s.files : s.files[m].h5 \in DOMAIN s.h5s
SavedIsWhole == s.name \in DOMAIN s.files /\ ~s.mod /\ s.full =>
                   Load(s, s.name, TRUE, "dir").cat.parts = s.cat.parts /\ Load(s, s.name, TRUE, "dir").fp = s.fp /\ Load(s, s.name, TRUE, "dir").cat.rels = s.cat.rels
FpComplete == DOMAIN s.fp = Ids(s) /\ \A m \in DOMAIN s.files : DOMAIN s.files[m].fp = DOMAIN s.files[m].parts
TargetsInside == \A m \in DOMAIN s.files : \A a \in DOMAIN s.files[m].rels : \A i \in DOMAIN s.files[m].rels[a] : s.files[m].rels[a][i][1] \in DOMAIN s.files[m].parts
Emit == Gen /\ n = MaxLen => PrintT("GEN " \o ToJson(hist))
=============================================================================
