----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validation.  A batch of traces recorded from the real      *)
(* code is read from a JSON file; every trace is replayed through the       *)
(* transition function of the specification (TPost) and at every event the  *)
(* set of clauses the specification finds broken (TBad) is computed.  The   *)
(* verdict is total: each trace ends either with DONE or with BAD and the   *)
(* names of the clauses that failed.                                        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS TInit(_), TBad(_, _), TPost(_, _)

VARIABLES t, l, s, v
tvars == <<t, l, s, v>>

\* the file is read once; t carries the number and the events of the trace
TraceInit == \E all \in {JsonDeserialize(IOEnv.VERIF_TRACES)} :
             \E n \in 1..Len(all) :
                /\ t = [n |-> n, events |-> all[n].events]
                /\ l = 1
                /\ v = "run"
                /\ s = TInit(all[n].init)

BadAt(st, e) == IF e.op = "crash" THEN {"crash"} ELSE TBad(st, e)

TraceStep == /\ v = "run"
             /\ l <= Len(t.events)
             /\ LET e == t.events[l]
                    bad == BadAt(s, e)
                IN IF bad = {}
                   THEN /\ s' = TPost(s, e)
                        /\ l' = l + 1
                        /\ UNCHANGED <<t, v>>
                   ELSE /\ PrintT(<<"VBAD", t.n, l, bad>>)
                        /\ v' = "bad"
                        /\ UNCHANGED <<t, l, s>>

TraceEnd == /\ v = "run"
            /\ l = Len(t.events) + 1
            /\ PrintT(<<"VDONE", t.n, l - 1>>)
            /\ v' = "done"
            /\ UNCHANGED <<t, l, s>>

TraceNext == TraceStep \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<t.n, l, v>>
=============================================================================
