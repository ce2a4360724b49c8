-------------------------------- MODULE Fail --------------------------------
(***************************************************************************)
(* Sessions with operators that may fail.  Operators of the caller's own   *)
(* ("FlakyId", "FlakyAdd") fail, forwards or when differentiated, as the   *)
(* behaviour says; a run in which one fails that is executed must return   *)
(* an error that tells which, and after a reset the machine must be as     *)
(* good as new.                                                            *)
(***************************************************************************)
EXTENDS Sess

Flaky == {i \in OpNodes \cap Live : prog[i].op \in {"FlakyId", "FlakyAdd"}}
(* where operators can fail: 0 when they are executed, 1 when their derivative is *)
Points == {<<i, 0>> : i \in Flaky} \cup (IF GradMode = "none" THEN {} ELSE {<<i, 1>> : i \in Flaky})
(* points that are certainly reached by a run: derivatives only on the way from the cost to something asked for *)
Between(i) == cost \in DependsOn(i) /\ \E j \in wrt : i \in DependsOn(j)
Reached(x) == x[2] = 0 \/ GradMode = "auto" \/ Between(x[1])

RECURSIVE RandSub(_)
RandSub(S) == IF S = {} THEN {}
              ELSE LET x == CHOOSE y \in S : TRUE
                   IN  (IF RandomElement(1..3) = 1 THEN {x} ELSE {}) \cup RandSub(S \ {x})
RECURSIVE PointSeq(_)
PointSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o PointSeq(S \ {x})

RunF ==
  /\ ph = "run" /\ Flaky # {}
  /\ runs < MaxRuns
  /\ runs' = runs + 1
  /\ ph' = IF runs + 1 = MaxRuns THEN "done" ELSE "idle"
  /\ \E quiet \in Ch(BOOLEAN) : \E F \in {TLCEval(IF quiet THEN {} ELSE RandSub(Points))} :
       hist' = Append(hist, [a |-> "run", fails |-> PointSeq(F), must |-> \E x \in F : Reached(x),
                             reads |-> ExpSeq(reads), vals |-> ExpSeq(Observed), grads |-> ExpGrads])
  /\ (ph' = "done") => PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, mach, reads, wrt, cost>>

FNext == Inp \/ Ops \/ Cost \/ Ask \/ NewVM \/ RunF \/ Reset \/ Let
=============================================================================
