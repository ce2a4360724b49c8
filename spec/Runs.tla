-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* What a run of a graph on a machine with one goroutine per node may do,  *)
(* seen from the operators: which of them have run, whether one failed,    *)
(* whether the caller has cancelled, and what the run returns.  Net.tla,   *)
(* the protocol of the implementation, refines it; Xvm.tla drives          *)
(* histories of it into the real machine.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kids,     \* node -> sequence of operands (nodes); <<>>: an input
          done,     \* nodes whose value is there
          failed,   \* nodes that have failed
          cancelled,
          ret       \* "running", "ok", "error"
rvars == <<kids, done, failed, cancelled, ret>>
Nodes == DOMAIN kids
IsInput(i) == kids[i] = <<>>
Operands(i) == {kids[i][p] : p \in DOMAIN kids[i]}
Ready(i) == i \notin done \cup failed /\ Operands(i) \subseteq done
RInit == /\ done = {i \in Nodes : IsInput(i)} /\ failed = {} /\ cancelled = FALSE /\ ret = "running"
Finish(i) == /\ ret = "running" /\ Ready(i) /\ done' = done \cup {i} /\ UNCHANGED <<kids, failed, cancelled, ret>>
FailAt(i) == /\ ret = "running" /\ Ready(i) /\ failed' = failed \cup {i} /\ UNCHANGED <<kids, done, cancelled, ret>>
Cancel == /\ ~cancelled /\ cancelled' = TRUE /\ UNCHANGED <<kids, done, failed, ret>>
Return == /\ ret = "running"
          /\ \/ failed = {} /\ done = Nodes /\ ret' = "ok"
             \/ (failed # {} \/ cancelled) /\ ret' = "error"
          /\ UNCHANGED <<kids, done, failed, cancelled>>
RNext == Cancel \/ Return \/ \E i \in Nodes : Finish(i) \/ FailAt(i)
RSpec == RInit /\ [][RNext]_rvars
(* consequences *)
OkComplete == ret = "ok" => done = Nodes /\ failed = {}
ErrorHasReason == ret = "error" => failed # {} \/ cancelled
=============================================================================
