------------------------------ MODULE BfcTrace ------------------------------
(***************************************************************************)
(* Recorded executions of the allocator, checked against Bfc: every event  *)
(* must be an action the specification allows in the state reached.        *)
(***************************************************************************)
EXTENDS Bfc
CONSTANT File
VARIABLES t, k
Traces == ndJsonDeserialize(File)
tvars == <<size, live, t, k>>
TInit == /\ t \in 1..Len(Traces) /\ k = 0 /\ live = {} /\ size = Traces[t].size
Ev == Traces[t].ev[k + 1]
Step == \/ Ev.a = "alloc" /\ Ev.ok /\ Alloc(Ev.n, Ev.at)
        \/ Ev.a = "alloc" /\ ~Ev.ok /\ Refuse(Ev.n)
        \/ Ev.a = "free" /\ Release(Ev.at)
TNext == /\ k < Len(Traces[t].ev)
         /\ IF ENABLED Step THEN Step /\ k' = k + 1 /\ t' = t
            ELSE /\ PrintT("@@" \o ToJson([i |-> Traces[t].i, step |-> k, ev |-> Ev, live |-> live]))
                 /\ k' = Len(Traces[t].ev) /\ UNCHANGED <<t, size, live>>
=============================================================================
