-------------------------------- MODULE Net ---------------------------------
(***************************************************************************)
(* The protocol of the concurrent machine (x/vm): a goroutine per node, a  *)
(* broadcasting goroutine per node with consumers, a forwarding goroutine  *)
(* per operand of every operator, and the caller, which collects what the  *)
(* nodes report.  All channels are unbuffered, so a send and its receive   *)
(* are one step.  Two contexts derive from the caller's: that of the nodes *)
(* is cancelled at the first error, that of the network once every node    *)
(* has reported.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Graphs,     \* set of graphs to run
          Failing,    \* how many operators may fail
          MayCancel   \* BOOLEAN
VARIABLES kids,
          pc,    \* node -> "start", "recv", "do", "emit", "report", "end"
          got,   \* operator -> position -> the node whose value is there, 0 none
          err,   \* node -> reports an error
          bad,   \* operators that fail when run
          bc,    \* node with consumers -> 0 waiting, k sending to consumer k, -1 ended
          fw,    \* <<operator, position>> -> 0 waiting, the node whose value is held, -1 ended
          caller, \* "collect", "wait", "returned"
          errs,  \* an error has been reported
          ctx,   \* [parent, nodes, net] cancelled?
          cancelledAt \* history: the caller of the run cancelled
vars == <<kids, pc, got, err, bad, bc, fw, caller, errs, ctx, cancelledAt>>

Nodes == DOMAIN kids
Ops == {i \in Nodes : kids[i] # <<>>}
Edges == {<<j, p>> : j \in Ops, p \in 1..4} \cap {<<j, p>> \in (Ops \X (1..4)) : p <= Len(kids[j])}
(* the consumers of a node, in the order in which they subscribed *)
RECURSIVE Subs(_, _, _)
Subs(i, j, p) ==
  IF j \notin Nodes THEN <<>>
  ELSE IF p > Len(kids[j]) THEN Subs(i, j + 1, 1)
  ELSE (IF kids[j][p] = i THEN <<<<j, p>>>> ELSE <<>>) \o Subs(i, j, p + 1)
SubsOf(i) == Subs(i, 1, 1)
(* an operator nobody consumes has no channel to emit on; an input has *)
Emits(i) == kids[i] = <<>> \/ SubsOf(i) # <<>>
NodeDone == ctx.parent \/ ctx.nodes
NetDone == ctx.parent \/ ctx.net

Init ==
  /\ kids \in Graphs
  /\ pc = [i \in Nodes |-> "start"]
  /\ got = [j \in Ops |-> [p \in 1..Len(kids[j]) |-> 0]]
  /\ err = [i \in Nodes |-> FALSE]
  /\ bad \in {S \in SUBSET Ops : Cardinality(S) <= Failing}
  /\ bc = [i \in {i \in Nodes : Emits(i)} |-> 0]
  /\ fw = [e \in Edges |-> 0]
  /\ caller = (IF Nodes = {} THEN "wait" ELSE "collect") /\ errs = FALSE
  /\ ctx = [parent |-> FALSE, nodes |-> FALSE, net |-> Nodes = {}]
  /\ cancelledAt = FALSE

Start(i) ==
  /\ pc[i] = "start"
  /\ pc' = [pc EXCEPT ![i] = IF i \in Ops THEN "recv" ELSE "emit"]
  /\ UNCHANGED <<kids, got, err, bad, bc, fw, caller, errs, ctx, cancelledAt>>
GiveUp(i) ==
  /\ pc[i] \in {"recv", "emit"} /\ NodeDone
  /\ pc' = [pc EXCEPT ![i] = "report"] /\ err' = [err EXCEPT ![i] = TRUE]
  /\ UNCHANGED <<kids, got, bad, bc, fw, caller, errs, ctx, cancelledAt>>
Do(i) ==
  /\ pc[i] = "do"
  /\ IF i \in bad THEN /\ err' = [err EXCEPT ![i] = TRUE] /\ pc' = [pc EXCEPT ![i] = "report"]
     ELSE /\ pc' = [pc EXCEPT ![i] = IF Emits(i) THEN "emit" ELSE "report"] /\ UNCHANGED err
  /\ UNCHANGED <<kids, got, bad, bc, fw, caller, errs, ctx, cancelledAt>>
Emit(i) == \* to the broadcaster
  /\ pc[i] = "emit" /\ bc[i] = 0
  /\ pc' = [pc EXCEPT ![i] = "report"]
  /\ bc' = [bc EXCEPT ![i] = IF SubsOf(i) = <<>> THEN 0 ELSE 1]
  /\ UNCHANGED <<kids, got, err, bad, fw, caller, errs, ctx, cancelledAt>>
Send(i) == \* from the broadcaster to a forwarder
  /\ bc[i] > 0
  /\ LET q == SubsOf(i)  e == q[bc[i]] IN
       /\ fw[e] = 0
       /\ fw' = [fw EXCEPT ![e] = i]
       /\ bc' = [bc EXCEPT ![i] = IF @ = Len(q) THEN 0 ELSE @ + 1]
  /\ UNCHANGED <<kids, pc, got, err, bad, caller, errs, ctx, cancelledAt>>
Forward(e) == \* to the operator
  /\ fw[e] > 0 /\ pc[e[1]] = "recv"
  /\ got' = [got EXCEPT ![e[1]][e[2]] = fw[e]]
  /\ fw' = [fw EXCEPT ![e] = 0]
  /\ pc' = [pc EXCEPT ![e[1]] = IF \A p \in DOMAIN got'[e[1]] : got'[e[1]][p] # 0 THEN "do" ELSE "recv"]
  /\ UNCHANGED <<kids, err, bad, bc, caller, errs, ctx, cancelledAt>>
Quit == \* goroutines of the network
  /\ NetDone
  /\ \/ \E i \in DOMAIN bc : bc[i] # -1 /\ bc' = [bc EXCEPT ![i] = -1] /\ UNCHANGED fw
     \/ \E e \in DOMAIN fw : fw[e] # -1 /\ fw' = [fw EXCEPT ![e] = -1] /\ UNCHANGED bc
  /\ UNCHANGED <<kids, pc, got, err, bad, caller, errs, ctx, cancelledAt>>
Report(i) ==
  /\ pc[i] = "report" /\ caller = "collect"
  /\ pc' = [pc EXCEPT ![i] = "end"]
  /\ errs' = (errs \/ err[i])
  /\ LET last == \A j \in Nodes \ {i} : pc[j] = "end" IN
       /\ caller' = IF last THEN "wait" ELSE "collect"
       /\ ctx' = [ctx EXCEPT !.nodes = @ \/ err[i] \/ last, !.net = @ \/ last]
  /\ UNCHANGED <<kids, got, err, bad, bc, fw, cancelledAt>>
Return ==
  /\ caller = "wait" /\ (\A i \in DOMAIN bc : bc[i] = -1) /\ (\A e \in DOMAIN fw : fw[e] = -1)
  /\ caller' = "returned"
  /\ UNCHANGED <<kids, pc, got, err, bad, bc, fw, errs, ctx, cancelledAt>>
CancelRun ==
  /\ MayCancel /\ ~ctx.parent /\ caller # "returned"
  /\ ctx' = [ctx EXCEPT !.parent = TRUE] /\ cancelledAt' = TRUE
  /\ UNCHANGED <<kids, pc, got, err, bad, bc, fw, caller, errs>>
Finished == caller = "returned" /\ UNCHANGED vars
Next == \/ \E i \in Nodes : Start(i) \/ GiveUp(i) \/ Do(i) \/ Report(i)
        \/ \E i \in DOMAIN bc : Emit(i) \/ Send(i)
        \/ \E e \in DOMAIN fw : Forward(e)
        \/ Quit \/ Return \/ CancelRun \/ Finished
Spec == Init /\ [][Next]_vars

(* operands arrive where they belong *)
Placed == \A j \in Ops : \A p \in DOMAIN got[j] : got[j][p] \in {0, kids[j][p]}
(* nothing is left behind *)
Clean == caller = "returned" => /\ \A i \in Nodes : pc[i] = "end"
                                /\ \A i \in DOMAIN bc : bc[i] = -1
                                /\ \A e \in DOMAIN fw : fw[e] = -1
(* every operator that runs has all of its operands *)
Fed == \A j \in Ops : pc[j] = "do" => \A p \in DOMAIN got[j] : got[j][p] # 0

(* the operators as Runs.tla sees them *)
Ran == {i \in Nodes : kids[i] = <<>> \/ (pc[i] \in {"emit", "report", "end"} /\ i \notin bad /\ \A p \in DOMAIN got[i] : got[i][p] # 0)}
Broke == {i \in Ops : pc[i] \in {"report", "end"} /\ i \in bad /\ \A p \in DOMAIN got[i] : got[i][p] # 0}
A == INSTANCE Runs WITH done <- Ran, failed <- Broke, cancelled <- cancelledAt,
       ret <- IF caller # "returned" THEN "running" ELSE IF errs THEN "error" ELSE "ok"
Refines == A!RSpec
OkComplete == A!OkComplete
ErrorHasReason == A!ErrorHasReason
=============================================================================
