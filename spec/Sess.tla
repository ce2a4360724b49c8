-------------------------------- MODULE Sess --------------------------------
(***************************************************************************)
(* User sessions: build an expression graph, ask for values to be read and *)
(* for gradients, create a machine, then run it any number of times,       *)
(* rebinding inputs in between.                                            *)
(*                                                                         *)
(* The machine itself is the simplest one that could be right: a run       *)
(* replaces every node's value by the meaning of its expression under the  *)
(* current binding of the inputs, and every requested gradient by the      *)
(* vector of partial derivatives.                                          *)
(***************************************************************************)
EXTENDS Prog, Json

CONSTANTS
  Machines,    \* bag of <<kind, options>>
  GradMode,    \* "none", "sym" (ask for gradient expressions) or "auto" (machine differentiates)
  WithCost,    \* TRUE: fold all loose ends into one scalar cost
  ReadMode,    \* "some": random reads, "all": every node is read, "none"
  CheckVals,   \* TRUE: every node's bound value is compared (needs a machine that keeps them)
  CheckInputs, \* TRUE: inputs and constants are compared after every run
  MaxRuns

VARIABLES ph, mach, reads, wrt, cost, runs
vars == <<pvars, ph, mach, reads, wrt, cost, runs>>
svars == <<mach, reads, wrt, cost, runs>>

Init == /\ ProgInit
        /\ ph = "in" /\ mach = <<>> /\ reads = {} /\ wrt = {} /\ cost = 0 /\ runs = 0

Inp == /\ ph = "in"
       /\ UNCHANGED svars
       /\ \/ AddInput /\ ph' = ph
          \/ AddConst /\ ph' = ph
          \/ Inputs # {} /\ ph' = "op" /\ UNCHANGED pvars
Ops == /\ ph = "op"
       /\ UNCHANGED svars
       /\ \/ AddOp /\ ph' = ph
          \/ Try /\ ph' = ph
          \/ BadOp /\ ph' = ph
          \/ BadMix /\ ph' = ph
          \/ /\ (Cardinality(OpNodes) >= MaxOps \/ tries >= MaxTries)
             /\ OpNodes # {}
             /\ ph' = IF WithCost THEN "cost" ELSE "ask"
             /\ UNCHANGED pvars

(* nodes nobody consumes *)
Consumed == UNION {SeqToSet(prog[i].a) : i \in OpNodes}
Sinks == {i \in OpNodes : i \notin Consumed /\ i \in Usable}
Cost ==
  /\ ph = "cost"
  /\ LET loose == {i \in Sinks : vals[i].s # <<>>}
     IN  IF loose # {}
         THEN /\ ApplyOp("Sum", <<>>, <<CHOOSE i \in loose : \A j \in loose : i <= j>>)
              /\ UNCHANGED <<ph, svars>>
         ELSE IF Cardinality(Sinks) > 1
         THEN LET q == SetToSeq(Sinks)
              IN  /\ ApplyOp("Add", <<>>, <<q[1], q[2]>>)
                  /\ UNCHANGED <<ph, svars>>
         ELSE /\ cost' = CHOOSE i \in Sinks : TRUE
              /\ ph' = "ask"
              /\ UNCHANGED <<pvars, mach, reads, wrt, runs>>

(* what the cost depends on; the automatic machine differentiates every root, *)
(* so in that mode everything else is left out of the session                 *)
RECURSIVE AncFrom(_, _)
AncFrom(i, S) == IF i = 0 THEN S
                 ELSE AncFrom(i - 1, IF i \in S /\ prog[i].k = "op" THEN S \cup SeqToSet(prog[i].a) ELSE S)
Live == IF GradMode = "auto" THEN AncFrom(Len(prog), {cost}) ELSE 1..Len(prog)

RECURSIVE RandSubset(_)
RandSubset(q) == IF q = <<>> THEN {}
                 ELSE (IF RandomElement(BOOLEAN) THEN {Head(q)} ELSE {}) \cup RandSubset(Tail(q))
(* without randomness: everything *)
SubsetCh(S) == IF Random THEN {TLCEval(RandSubset(SetToSeq(S)))} ELSE {S}
Ch1(S) == IF Random THEN {RandomElement(S)} ELSE {CHOOSE x \in S : TRUE}

Ask ==
  /\ ph = "ask"
  /\ ph' = "vm"
  /\ \E ReadGrads \in Ch1(BOOLEAN) : \E R \in IF ReadMode = "all" THEN {OpNodes} ELSE IF ReadMode = "none" THEN {{}} ELSE SubsetCh(OpNodes),
        W \in IF GradMode = "none" \/ cost = 0 THEN {{}} ELSE SubsetCh(InputsOf(cost)) :
     /\ LET R1 == IF R = {} /\ ReadMode = "some" THEN {Len(prog)} ELSE R
            W1 == IF GradMode = "auto" THEN InputsOf(cost) ELSE W
            rs == SetToSeq(R1 \cap Live)
        IN  /\ reads' = R1 \cap Live
            /\ wrt' = W1
            /\ hist' = SelectSeq(hist, LAMBDA h : h.id \in Live \/ h.id >= 500) \o [k \in 1..Len(rs) |-> [a |-> "read", id |-> rs[k]]]
                       \o (IF W1 # {} /\ GradMode = "sym"
                           THEN <<[a |-> "grad", cost |-> cost, wrt |-> SetToSeq(W1), flag |-> ReadGrads]>> ELSE <<>>)
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, mach, cost, runs>>

NewVM ==
  /\ ph = "vm"
  /\ ph' = "run"
  /\ \E mc \in ChBag(Machines) :
       /\ mach' = mc
       /\ hist' = Append(hist, [a |-> "vm", kind |-> mc[1], opts |-> mc[2]])
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, reads, wrt, cost, runs>>

NodeDt(i) == IF prog[i].k = "op" /\ IsBoolResult(prog[i].op, prog[i].p) THEN "bool" ELSE dt
Exp(i) == [id |-> i, sh |-> vals[i].s, dt |-> NodeDt(i), v |-> ValOf(vals[i])]
ExpSeq(S) == LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> Exp(q[k])]
(* a machine that only executes does not differentiate *)
ExpGrads == LET q == IF GradMode = "auto" /\ mach # <<"lisp", <<>>>> THEN <<>> ELSE SetToSeq(wrt)
            IN  [k \in 1..Len(q) |->
                   [id |-> q[k], sh |-> prog[q[k]].s, dt |-> dt,
                    v |-> GradOf(vals[cost], prog[q[k]].base, NElem(prog[q[k]].s))]]
Observed == ((IF CheckVals THEN 1..Len(prog) ELSE {}) \cup (IF CheckInputs THEN Inputs \cup Consts ELSE {}))
            \cap Live
RunStep ==
  /\ ph = "run"
  /\ runs < MaxRuns
  /\ runs' = runs + 1
  /\ ph' = IF runs + 1 = MaxRuns THEN "done" ELSE "idle"
  /\ hist' = Append(hist, [a |-> "run", reads |-> ExpSeq(reads), vals |-> ExpSeq(Observed), grads |-> ExpGrads])
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, mach, reads, wrt, cost>>
Run == RunStep /\ ((ph' = "done") => PrintT("@@" \o ToJson(hist')))

(* Between runs the machine is reset; the values of all nodes but the      *)
(* inputs may also be dropped, or the machine be replaced by a new one,    *)
(* possibly of another kind.                                               *)
ResetHows == <<"">>
EveryHow == <<"", "unbind", "new", "unbind-new">>
SymHow == <<"", "tape", "bind", "trace", "fwd", "fwd", "unbind">>
AutoHow == <<"", "tape", "tape", "lisp", "lisp", "fwd">>
Other(how) == CASE how = "tape" -> <<"tape", <<>>>>
              []   how \in {"bind", "trace"} -> <<"tape", <<how>>>>
              []   how = "fwd" -> <<"lisp", <<"fwd">>>>
              []   how = "lisp" -> <<"lisp", <<>>>>
              []   OTHER -> mach
Reset ==
  /\ ph = "idle"
  /\ ph' = "let"
  /\ \E how \in ChBag(ResetHows) :
       /\ mach' = Other(how)
       /\ hist' = Append(hist, [a |-> "reset", how |-> how, kind |-> mach'[1], opts |-> mach'[2]])
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, reads, wrt, cost, runs>>

(* A slicing node whose operand is an input can be told to take another part of it, of the    *)
(* same extent.  Only for slices that are no other expression's as well.                      *)
Reslices == FALSE
Yes == TRUE
SliceNodes == {i \in OpNodes \cap Live : prog[i].op = "Slice"}
Movable == IF ~Reslices THEN {}
           ELSE {i \in SliceNodes : Len(prog[i].p) = 1 /\ prog[i].p[1] # <<>> /\ prog[prog[i].a[1]].k = "in"
                                    /\ \A j \in SliceNodes : j = i \/ prog[j].a # prog[i].a}
Moves(i) == LET t == vals[prog[i].a[1]]
            IN  {p \in SliceParams(t.s, 1) : p[1] # <<>> /\ SliceT(t, [k \in 1..1 |-> ToR(p[k], t.s[k])]).s = vals[i].s}
Reslice ==
  /\ ph = "let" /\ Movable # {}
  /\ \E i \in Ch(Movable) : \E p \in Ch(Moves(i)) :
       /\ prog' = [prog EXCEPT ![i].p = p]
       /\ hist' = Append(hist, [a |-> "reslice", id |-> i, p |-> p])
  /\ UNCHANGED <<vals, env, nvar, dt, tries, ph, svars>>

NewEnv(S) == [i \in 1..Len(prog) |->
                IF i \in S THEN (CHOOSE v \in DataFor(NElem(prog[i].s), prog[i].gen, i + 11 * runs) : TRUE)
                ELSE env[i]]
(* rebind some of the inputs *)
Let ==
  /\ ph = "let"
  /\ \E S \in SubsetCh(Inputs \cap Live) :
     \E e2 \in {TLCEval(NewEnv(S))} :
     \E v2 \in {TLCEval(EvalAll(e2))} :
       LET q == SetToSeq(S)
       IN  /\ IF TRUE = DomFrom(1, v2)
              THEN /\ env' = e2 /\ vals' = v2
                   /\ hist' = Append(hist, [a |-> "let", lets |-> [k \in 1..Len(q) |->
                                 [id |-> q[k], dt |-> dt, sh |-> prog[q[k]].s, in |-> e2[q[k]]]]])
              ELSE UNCHANGED <<env, vals, hist>>
           /\ ph' = IF Reslices /\ TRUE # DomFrom(1, v2) THEN "dead" ELSE "run"
           /\ UNCHANGED <<prog, nvar, dt, tries, svars>>

Next == Inp \/ Ops \/ Cost \/ Ask \/ NewVM \/ Run \/ Reset \/ Let \/ Reslice
=============================================================================
