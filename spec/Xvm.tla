-------------------------------- MODULE Xvm ---------------------------------
(***************************************************************************)
(* Histories of runs on the machine with one goroutine per node, in which  *)
(* the order of completion of the operators, their failures and the time   *)
(* of cancellation are chosen; Runs.tla says what may happen.  The         *)
(* replayer holds every operator at a gate until its step.                 *)
(*                                                                         *)
(* Operators compute c + r + 2 a + 3 b + 5 c + ... over their operands     *)
(* modulo 1009, where r counts runs, so that operands in wrong places and  *)
(* values left over from an earlier run show.                              *)
(***************************************************************************)
EXTENDS Runs, TLC, Json
CONSTANTS MaxIn, MaxOps, MaxArity, MaxRuns,
          Fault,     \* "none", "fail", "cancel", "both"
          Fixed      \* graphs to choose from, {} for random ones
VARIABLES cs,     \* node -> its constant, or the value of an input
          held,   \* operators running
          ph,     \* "graph", "idle", "run", "wind", "end"
          run, hist
vars == <<kids, done, failed, cancelled, ret, cs, held, ph, run, hist>>
Random == Fixed = {}
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Weight(p) == <<2, 3, 5, 7, 11>>[p]
RECURSIVE ValIn(_, _, _)
RECURSIVE Sum(_, _, _, _)
Sum(i, p, D, r) == IF p > Len(kids[i]) THEN 0 ELSE Weight(p) * ValIn(kids[i][p], D, r) + Sum(i, p + 1, D, r)
ValIn(i, D, r) == IF kids[i] = <<>> THEN cs[i] ELSE (cs[i] + r + Sum(i, 1, D, r)) % 1009
Val(i) == ValIn(i, {}, run)

Init == /\ kids = <<>> /\ done = {} /\ failed = {} /\ cancelled = FALSE /\ ret = "none"
        /\ cs = <<>> /\ held = {} /\ ph = "graph" /\ run = 0 /\ hist = <<>>

RandKids(ni, no) == \* operators take operands among earlier nodes, often recent ones
  TLCEval([i \in 1..ni + no |->
     IF i <= ni THEN <<>>
     ELSE TLCEval([p \in 1..RandomElement(1..MaxArity) |-> IF RandomElement(1..3) = 1 THEN i - 1 ELSE RandomElement(1..i - 1)])])
Graph ==
  /\ ph = "graph"
  /\ \E k \in IF Random THEN {RandKids(RandomElement(1..MaxIn), RandomElement(1..MaxOps))} ELSE Fixed :
     \E c \in {TLCEval([i \in DOMAIN k |-> IF Random THEN RandomElement(0..1008) ELSE 17 * i])} :
       /\ kids' = k /\ cs' = c
       /\ hist' = <<[a |-> "graph", kids |-> k, cs |-> c]>>
  /\ ph' = "idle" /\ UNCHANGED <<done, failed, cancelled, ret, held, run>>

Inputs == {i \in Nodes : IsInput(i)}
ReadyIn(D) == {i \in Nodes \ D : Operands(i) \subseteq D}
Begin == \* possibly with a context that is cancelled already
  /\ ph = "idle" /\ run < MaxRuns
  /\ \E c \in IF Fault \in {"cancel", "both"} THEN (IF Random THEN {RandomElement(1..6) = 1} ELSE BOOLEAN) ELSE {FALSE} :
     \E tr \in IF Random THEN {RandomElement(1..4) = 1} ELSE {FALSE} :
       /\ done' = Inputs /\ failed' = {} /\ cancelled' = c /\ ret' = "running"
       /\ held' = IF c THEN {} ELSE ReadyIn(Inputs)
       /\ run' = run + 1
       /\ hist' = Append(hist, [a |-> "begin", cancelled |-> c, trace |-> tr, starts |-> held'])
       /\ ph' = IF c THEN "wind" ELSE "run"
  /\ UNCHANGED <<kids, cs>>
(* an operator finishes and lets others start *)
FinishStep ==
  /\ ph = "run" /\ held # {}
  /\ \E i \in Pick(held) :
       /\ Finish(i)
       /\ held' = (held \ {i}) \cup (ReadyIn(done') \ ReadyIn(done))
       /\ hist' = Append(hist, [a |-> "finish", i |-> i, v |-> Val(i), starts |-> held' \ held])
  /\ UNCHANGED <<cs, ph, run>>
FailStep ==
  /\ ph \in {"run", "wind"} /\ held # {} /\ Fault \in {"fail", "both"}
  /\ \E i \in Pick(held) :
       /\ FailAt(i)
       /\ held' = held \ {i}
       /\ hist' = Append(hist, [a |-> "fail", i |-> i])
  /\ ph' = "wind" /\ UNCHANGED <<cs, run>>
CancelStep ==
  /\ ph = "run" /\ Fault \in {"cancel", "both"} /\ Cancel
  /\ hist' = Append(hist, [a |-> "cancel"])
  /\ ph' = "wind" /\ UNCHANGED <<cs, held, run>>
(* after a failure or cancellation: what is running finishes; others may or may not start *)
WindStep ==
  /\ ph = "wind" /\ held # {}
  /\ \E i \in Pick(held) :
       /\ Finish(i)
       /\ held' = held \ {i}
       /\ hist' = Append(hist, [a |-> "finish", i |-> i, v |-> Val(i), starts |-> {}])
  /\ UNCHANGED <<cs, ph, run>>
RECURSIVE Depth(_)
Depth(i) == IF kids[i] = <<>> THEN 0 ELSE 1 + LET S == {Depth(j) : j \in Operands(i)} IN CHOOSE d \in S : \A e \in S : e <= d
(* the longest way from what has run to a result: at every operator on it  *)
(* the machine notices a cancellation with probability 1/2 at least        *)
Long == \E i \in Nodes : \A j \in done : Depth(i) - Depth(j) >= 40
ReturnStep ==
  /\ ph \in {"run", "wind"} /\ held = {}
  /\ ph = "run" => done = Nodes
  /\ hist' = Append(hist, [a |-> "return",
       must |-> IF failed # {} THEN "error" ELSE IF ~cancelled THEN "ok" ELSE IF Long THEN "error" ELSE "any",
       vals |-> [i \in Nodes |-> Val(i)]])
  /\ ret' = "none" /\ ph' = IF run >= MaxRuns THEN "end" ELSE "idle"
  /\ (ph' = "end") => PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<kids, done, failed, cancelled, cs, held, run>>
Next == \/ Graph \/ Begin \/ ReturnStep
        \/ IF ~Random THEN FinishStep \/ FailStep \/ CancelStep \/ WindStep
           ELSE \E d \in {RandomElement(1..12)} :
                  \/ d <= 10 /\ FinishStep
                  \/ d <= 10 /\ WindStep
                  \/ d = 11 /\ (IF Fault \in {"fail", "both"} THEN FailStep ELSE FinishStep \/ WindStep)
                  \/ d = 12 /\ (IF Fault \in {"cancel", "both"} /\ ph = "run" THEN CancelStep ELSE FinishStep \/ WindStep)
=============================================================================
