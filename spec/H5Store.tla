------------------------------- MODULE H5Store -------------------------------
(* Array files.  A store maps a file number to a map from paths (<<object,  *)
(* tail>>) to datasets [shape, type, v, chunk, comp]: v is the row major    *)
(* sequence of values; values of floating point types are scaled by 4.      *)
(* Special values: 800000 + k stands for k + 0.1 (in double precision) and  *)
(* 810000 + k for the same rounded to single precision; 999999 for nan.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in DOMAIN q}
With(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
Min2(a, b) == IF a < b THEN a ELSE b

Floats == {"float32", "float64"}
Ints == {"int8", "int16", "int32", "int64", "uint8", "uint16"}
Trunc(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)
Conv(a, b, x) ==
    IF a = b THEN x
    ELSE IF b = "bool" THEN (IF x = 0 THEN 0 ELSE 1)
    ELSE IF a \in Floats /\ b \in Floats THEN (IF b = "float32" /\ x \in 800000..800999 THEN x + 10000 ELSE x)
    ELSE IF a \in Floats THEN Trunc(x, 4)
    ELSE IF b \in Floats THEN 4 * x
    ELSE x
ConvAll(a, b, q) == [i \in DOMAIN q |-> Conv(a, b, q[i])]

\* ---- packing of bits over the last axis
Ceil8(n) == (n + 7) \div 8
Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128>>[k + 1]
RECURSIVE ByteAt(_, _, _, _)
ByteAt(q, from, len, k) == IF k = 8 THEN 0 ELSE (IF k < len /\ q[from + k] # 0 THEN Pow2(7 - k) ELSE 0) + ByteAt(q, from, len, k + 1)
PackShape(sh) == [sh EXCEPT ![Len(sh)] = Ceil8(@)]
PackV(sh, q) ==
    LET n == sh[Len(sh)]
        m == Ceil8(n)
    IN [i \in 1..Prod(PackShape(sh)) |-> LET row == (i - 1) \div m
                                             b == (i - 1) % m
                                         IN ByteAt(q, row * n + 8 * b + 1, Min2(8, n - 8 * b), 0)]
UnpackV(sh, q, n) ==   \* sh: packed shape, n: wanted length of last axis
    LET m == sh[Len(sh)]
        rows == IF m = 0 THEN 0 ELSE Len(q) \div m
    IN [i \in 1..(rows * n) |-> LET row == (i - 1) \div n
                                    c == (i - 1) % n
                                IN (q[row * m + (c \div 8) + 1] \div Pow2(7 - (c % 8))) % 2]

\* ---- selections.  An index is a sequence of <<i>> or <<start, stop, step>> for the leading axes
SelLen(x) == IF Len(x) = 1 THEN 1 ELSE IF x[2] <= x[1] THEN 0 ELSE (x[2] - x[1] + x[3] - 1) \div x[3]
SelAt(x, k) == IF Len(x) = 1 THEN x[1] ELSE x[1] + k * x[3]
FullSel(sh, s) == [i \in DOMAIN sh |-> IF i \in DOMAIN s THEN s[i] ELSE <<0, sh[i], 1>>]
SelShape(sh, s) == LET f == FullSel(sh, s)
                       keep == SelectSeq([i \in DOMAIN f |-> i], LAMBDA i : Len(f[i]) # 1)
                   IN [j \in DOMAIN keep |-> SelLen(f[keep[j]])]
\* offset (from 1) in an array of shape sh of the k-th (from 0) element of full selection f
RECURSIVE Offset(_, _, _)
Offset(sh, f, k) ==
    IF sh = <<>> THEN 0
    ELSE LET n == Len(sh)
             l == SelLen(f[n])
         IN SelAt(f[n], k % l) + sh[n] * Offset(SubSeq(sh, 1, n - 1), SubSeq(f, 1, n - 1), k \div l)
SelCount(sh, s) == Prod([i \in DOMAIN sh |-> SelLen(FullSel(sh, s)[i])])
SelV(sh, s, q) == LET f == FullSel(sh, s) IN [i \in 1..SelCount(sh, s) |-> q[1 + Offset(sh, f, i - 1)]]
PutV(sh, s, q, new) ==
    LET f == FullSel(sh, s)
        at == [i \in 1..SelCount(sh, s) |-> 1 + Offset(sh, f, i - 1)]
    IN [j \in DOMAIN q |-> IF j \in Range(at) THEN new[CHOOSE i \in DOMAIN at : at[i] = j] ELSE q[j]]
SelOk(sh, s) == Len(s) <= Len(sh) /\ \A i \in DOMAIN s : IF Len(s[i]) = 1 THEN s[i][1] \in 0..(sh[i] - 1)
                                                           ELSE s[i][1] >= 0 /\ s[i][2] <= sh[i] /\ s[i][3] >= 1

\* ---- what a registered array becomes in the file
StoredType(it, dt, int32) ==
    LET t == IF dt = "pack" THEN "uint8" ELSE IF dt # "" THEN dt ELSE IF it = "int64" /\ int32 THEN "int32" ELSE it
    IN IF t = "bool" THEN "uint8" ELSE t
ChunkOf(sh, ch, comp) ==   \* "none", "auto" or the chunk shape wanted
    IF ch \in {"", "none"} THEN (IF comp = "" THEN <<"none">> ELSE <<"auto">>)
    ELSE IF ch = "auto" THEN <<"auto">>
    ELSE IF ch = "slice" /\ Len(sh) > 1 THEN <<"shape", [i \in DOMAIN sh |-> IF i = 1 THEN 1 ELSE sh[i]]>>
    ELSE <<"shape", sh>>
\* defc, defz: defaults of the register
Stored(it, defc0, defz, int32) ==
    LET defc == IF defz \in {"gzip", "lzf"} /\ defc0 \in {"", "none"} THEN "auto" ELSE defc0
        packed == it.dt = "pack"
        sh == IF packed THEN PackShape(it.shape) ELSE it.shape
        tt == IF packed \/ it.dt = "" THEN it.t ELSE it.dt
        v == IF packed THEN PackV(it.shape, it.v) ELSE ConvAll(it.t, tt, it.v)
        ty == StoredType(it.t, it.dt, int32)
        z0 == IF it.comp = "" THEN defz ELSE it.comp
        z == IF z0 = "none" THEN "" ELSE z0
        c == IF it.chunks = "" THEN defc ELSE it.chunks
    IN [shape |-> sh, type |-> ty, v |-> v, chunk |-> ChunkOf(sh, c, z), comp |-> z]

\* ---- writing a register: the items in order; stops at the first path already there
RECURSIVE Dedup(_, _)
Dedup(items, seen) ==   \* a path registered again replaces the array registered before, in its place
    IF items = <<>> THEN <<>>
    ELSE IF items[1].p \in seen THEN Dedup(Tail(items), seen)
    ELSE LET same == SelectSeq(items, LAMBDA x : x.p = items[1].p)
         IN <<same[Len(same)]>> \o Dedup(Tail(items), seen \cup {items[1].p})
RECURSIVE PutAll(_, _, _)
PutAll(F, items, e) ==
    IF items = <<>> THEN [F |-> F, ok |-> TRUE]
    ELSE IF items[1].p \in DOMAIN F THEN [F |-> F, ok |-> FALSE]
    ELSE PutAll(With(F, items[1].p, Stored(items[1], e.defc, e.defz, e.int32)), Tail(items), e)
WriteResult(s, e) == PutAll(IF e.mode = "w" THEN <<>> ELSE s.files[e.f], Dedup(e.items, {}), e)

\* ---- file to file
CopyWhole(s, e) ==
    LET src == s.files[e.src]
        dst == IF e.mode = "w" THEN <<>> ELSE s.files[e.dst]
        objs == {p[1] : p \in DOMAIN src}
        want == (IF e.inc = <<-1>> THEN objs ELSE objs \cap Range(e.inc)) \ (IF e.exc = <<-1>> THEN {} ELSE Range(e.exc))
        go == want \ {p[1] : p \in DOMAIN dst}
        paths == {p \in DOMAIN src : p[1] \in go}
    IN [F |-> [p \in DOMAIN dst \cup paths |-> IF p \in paths THEN src[p] ELSE dst[p]], n |-> Cardinality(go)]
RECURSIVE CopyPaths(_, _, _, _)
CopyPaths(src, F, ps, e) ==
    IF ps = <<>> THEN [F |-> F, n |-> 0]
    ELSE IF ps[1] \in DOMAIN F THEN CopyPaths(src, F, Tail(ps), e)
    ELSE LET d == src[ps[1]]
             z == IF e.comp = "none" THEN "" ELSE e.comp
             ch == IF e.chunks \in {"", "none"} THEN (IF z = "" THEN "none" ELSE "auto") ELSE "auto"
             r == CopyPaths(src, With(F, ps[1], [d EXCEPT !.chunk = <<ch>>, !.comp = z]), Tail(ps), e)
         IN [F |-> r.F, n |-> r.n + 1]

\* ---- states and events
NoStore == [files |-> [i \in 1..3 |-> <<>>], cache |-> <<>>]
Has(s, e) == e.p \in DOMAIN s.files[e.f]
Ds(s, e) == s.files[e.f][e.p]
ReadType(d, dt) == IF dt = "" THEN d.type ELSE IF dt = "float" THEN "float64" ELSE IF dt \in {"int"} THEN "int64" ELSE IF dt = "pack" THEN "bool" ELSE dt
IsPacked(d, req) == /\ req # <<>> /\ d.type = "uint8" /\ req # d.shape /\ Len(req) = Len(d.shape) /\ Len(req) > 0
                    /\ SubSeq(req, 1, Len(req) - 1) = SubSeq(d.shape, 1, Len(req) - 1) /\ Ceil8(req[Len(req)]) = d.shape[Len(req)]
\* the array as seen with a required shape: [ok, shape, type, v]
Viewed(d, dt, req) ==
    LET ty == ReadType(d, dt)
    IN IF req = <<>> \/ req = d.shape THEN [ok |-> TRUE, shape |-> d.shape, type |-> ty, v |-> ConvAll(d.type, ty, d.v)]
       ELSE IF IsPacked(d, req) /\ ty \in {"bool", "uint8"} THEN [ok |-> TRUE, shape |-> req, type |-> ty, v |-> UnpackV(d.shape, d.v, req[Len(req)])]
       ELSE IF Prod(req) = Prod(d.shape) THEN [ok |-> TRUE, shape |-> req, type |-> ty, v |-> ConvAll(d.type, ty, d.v)]
       ELSE [ok |-> FALSE, shape |-> <<>>, type |-> "", v |-> <<>>]
Got(w, s) == [shape |-> SelShape(w.shape, s), v |-> SelV(w.shape, s, w.v)]
GotMatches(g, r) == r.v = g.v /\ (Len(g.v) # 1 => r.shape = g.shape)

HOk(s, e) ==
    CASE e.op = "write" -> e.items # <<>> /\ \A i \in DOMAIN e.items : Len(e.items[i].v) = Prod(e.items[i].shape)
      [] e.op \in {"shape", "release", "elem", "slice", "cache", "cached"} -> TRUE
      [] e.op = "overwrite" -> Has(s, e) /\ Len(e.v) = Len(Ds(s, e).v)
      [] e.op = "overwrite_slice" -> Has(s, e) /\ SelOk(Ds(s, e).shape, e.sel) /\ Len(e.v) = SelCount(Ds(s, e).shape, e.sel)
      [] e.op = "copy_h5" -> e.src # e.dst /\ s.files[e.src] # <<>>
      [] e.op = "copy_paths" -> e.src # e.dst /\ Range(e.ps) \subseteq DOMAIN s.files[e.src]
      [] e.op = "change_uuid" -> (\E p \in DOMAIN s.files[e.f] : p[1] = e.old) /\ ~ \E p \in DOMAIN s.files[e.f] : p[1] = e.new

HPost(s, e) ==
    CASE e.op = "write" -> [s EXCEPT !.files[e.f] = WriteResult(s, e).F]
      [] e.op = "overwrite" -> [s EXCEPT !.files[e.f][e.p].v = ConvAll(e.t, Ds(s, e).type, e.v)]
      [] e.op = "overwrite_slice" -> [s EXCEPT !.files[e.f][e.p].v = PutV(Ds(s, e).shape, e.sel, @, ConvAll(e.t, Ds(s, e).type, e.v))]
      [] e.op = "copy_h5" -> [s EXCEPT !.files[e.dst] = CopyWhole(s, e).F]
      [] e.op = "copy_paths" -> [s EXCEPT !.files[e.dst] = CopyPaths(s.files[e.src], IF e.mode = "w" THEN <<>> ELSE @, e.ps, e).F]
      [] e.op = "change_uuid" -> [s EXCEPT !.files[e.f] = LET F == s.files[e.f]
                                                             N(p) == IF p[1] = e.old THEN <<e.new, p[2]>> ELSE p
                                                             O(p) == IF p[1] = e.new THEN <<e.old, p[2]>> ELSE p
                                                         IN [p \in {N(x) : x \in DOMAIN F} |-> F[O(p)]]]
      [] e.op = "cache" /\ e.attr \notin DOMAIN s.cache /\ Has(s, e) /\ Viewed(Ds(s, e), e.dt, e.req).ok ->
            [s EXCEPT !.cache = With(@, e.attr, Viewed(Ds(s, e), e.dt, e.req))]
      [] OTHER -> s

\* ---- observed files: sequence of [f, p, shape, type, v, chunk, comp]
ChunkFits(want, got) == IF want[1] = "shape" THEN got = want[2] ELSE IF want[1] = "auto" THEN got # <<>> ELSE IF want[1] = "any" THEN TRUE ELSE got = <<>>
FilesBad(files, o) ==
    LET at(f, p) == CHOOSE i \in DOMAIN o : o[i].f = f /\ o[i].p = p
    IN IF {<<f, p>> : f \in {1}, p \in DOMAIN files[1]} \cup {<<f, p>> : f \in {2}, p \in DOMAIN files[2]} \cup {<<f, p>> : f \in {3}, p \in DOMAIN files[3]}
            # {<<o[i].f, o[i].p>> : i \in DOMAIN o}
       THEN {"arrays_in_file"}
       ELSE UNION {UNION {LET d == files[f][p]
                              x == o[at(f, p)]
                          IN (IF x.shape # d.shape THEN {"stored_shape"} ELSE {}) \cup (IF x.type # d.type THEN {"stored_type"} ELSE {})
                             \cup (IF x.v # d.v THEN {"stored_values"} ELSE {})
                             \cup (IF d.v # <<>> /\ ~ChunkFits(d.chunk, x.chunk) THEN {"chunking"} ELSE {})
                             \cup (IF d.v # <<>> /\ x.comp # d.comp THEN {"compression"} ELSE {}) : p \in DOMAIN files[f]} : f \in 1..3}

HBad(s, e) ==
    IF ~HOk(s, e) THEN {"driver_left_domain"}
    ELSE LET s2 == HPost(s, e)
             ok == e.res.k = "ok"
         IN FilesBad(s2.files, e.obs)
            \cup CASE e.op = "write" -> (IF ok # WriteResult(s, e).ok THEN {"write_outcome"} ELSE {})
              [] e.op \in {"release", "overwrite", "overwrite_slice", "change_uuid"} -> (IF ~ok THEN {"operation_raises"} ELSE {})
              [] e.op = "copy_h5" -> (IF ~ok THEN {"operation_raises"} ELSE IF e.res.n # CopyWhole(s, e).n THEN {"copy_count"} ELSE {})
              [] e.op = "copy_paths" -> (IF ~ok THEN {"operation_raises"}
                                         ELSE IF e.res.n # CopyPaths(s.files[e.src], IF e.mode = "w" THEN <<>> ELSE s.files[e.dst], e.ps, e).n THEN {"copy_count"} ELSE {})
              [] e.op = "shape" -> (IF ok # Has(s, e) THEN {"missing_array"}
                                    ELSE IF ok /\ (e.res.shape # Ds(s, e).shape \/ e.res.type # Ds(s, e).type) THEN {"shape_and_type"} ELSE {})
              [] e.op = "slice" -> (IF ~Has(s, e) THEN (IF ok THEN {"missing_array"} ELSE {})
                                    ELSE IF ~SelOk(Ds(s, e).shape, e.sel) THEN {}
                                    ELSE IF ~ok THEN {"operation_raises"}
                                    ELSE IF ~(LET g == Got(Viewed(Ds(s, e), "", <<>>), e.sel) IN e.res.v = g.v /\ e.res.shape = g.shape) THEN {"slice_values"} ELSE {})
              [] e.op = "elem" -> (IF ~Has(s, e) THEN (IF ok THEN {"missing_array"} ELSE {})
                                   ELSE LET w == Viewed(Ds(s, e), e.dt, e.req)
                                        IN IF ~w.ok \/ ~SelOk(w.shape, e.sel) \/ IsPacked(Ds(s, e), e.req) \/ (Len(e.sel) # Len(w.shape) /\ w.shape # Ds(s, e).shape) THEN {}
                                           ELSE IF ~ok THEN {"operation_raises"}
                                           ELSE IF ~GotMatches(Got(w, e.sel), e.res) THEN {"element_values"} ELSE {})
              [] e.op = "cache" -> (IF e.attr \in DOMAIN s.cache
                                    THEN (IF ~SelOk(s.cache[e.attr].shape, e.sel) THEN {}
                                          ELSE IF ~ok THEN {"operation_raises"}
                                          ELSE IF ~GotMatches(Got(s.cache[e.attr], e.sel), e.res) THEN {"cached_values"} ELSE {})
                                    ELSE IF ~Has(s, e) THEN (IF ok THEN {"missing_array"} ELSE {})
                                    ELSE LET w == Viewed(Ds(s, e), e.dt, e.req)
                                         IN IF ~w.ok THEN (IF ok THEN {"impossible_shape_accepted"} ELSE {})
                                            ELSE IF ~SelOk(w.shape, e.sel) THEN {}
                                            ELSE IF ~ok THEN {"operation_raises"}
                                            ELSE IF ~GotMatches(Got(w, e.sel), e.res) THEN {"cached_values"} ELSE {})
                                   \cup (IF e.whole # (IF e.attr \in DOMAIN s2.cache THEN LET w == s2.cache[e.attr] IN <<w.shape, <<w.type>>, w.v>> ELSE <<>>)
                                         THEN {"cache_content"} ELSE {})
=============================================================================
