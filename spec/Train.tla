-------------------------------- MODULE Train -------------------------------
(***************************************************************************)
(* Training: an expression graph with one scalar cost, some of whose       *)
(* inputs are parameters; then any number of iterations of binding a       *)
(* batch, running the machine, a step of a solver and a reset.             *)
(*                                                                         *)
(* Elements of inputs are registers here, references that stand for what   *)
(* the element is at that time (InT is replaced by RegT), so that the cost *)
(* and its derivatives are terms over the registers, and an iteration is   *)
(* an assignment to the registers of the parameters:                       *)
(*     v          element v of the inputs                                  *)
(*     1000 + v   first moment       2000 + v   second moment              *)
(*     3000 + v   derivative         4000 + v   value before the last step *)
(*     5000 + v   derivative at the last step                              *)
(***************************************************************************)
EXTENDS Sess
R == INSTANCE Rules
CONSTANTS Solvers, MaxIters
VARIABLES cfg, par, iters
tvars == <<vars, cfg, par, iters>>

RegT(s, v, base) == [s |-> s, x |-> TLCEval([k \in 1..NElem(s) |-> <<R!rRef(base + k), [j \in {base + k} |-> One]>>])]
TrainSize == 250

TInit == Init /\ cfg = [kind |-> "none", opts |-> <<>>] /\ par = <<>> /\ iters = 0

Build == (Inp \/ Ops \/ Cost) /\ UNCHANGED <<cfg, par, iters>>

RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o Orders(S \ {x})

(* which inputs are the parameters, in the order in which they are handed to the solver *)
Setup ==
  /\ ph = "ask"
  /\ InputsOf(cost) # {}
  /\ \E S0 \in SubsetCh(InputsOf(cost)) :
     \E mc \in ChBag(Machines) : \E kind \in Ch(Solvers) :
     \E os \in {TLCEval({x \in R!rTakes(kind) : RandomElement(1..5) <= 2})} :
     \E o \in {TLCEval([x \in os |-> RandomElement(R!rChoices[x])])} :
     \E oq \in {TLCEval(Orders(os))} :
     \E pq \in {TLCEval(Orders(IF S0 = {} THEN InputsOf(cost) ELSE S0))} :
     \E all \in Ch({TRUE, FALSE}) :
     LET asked == IF all THEN SetToSeq(InputsOf(cost)) ELSE pq
     IN  /\ cfg' = [kind |-> kind, opts |-> o]
         /\ par' = pq
         /\ mach' = mc
         /\ wrt' = SeqToSet(pq)
         /\ ph' = "iter"
         /\ hist' = SelectSeq(hist, LAMBDA h : h.id \in Live \/ h.id >= 500)
                    \o (IF GradMode = "sym" THEN <<[a |-> "grad", cost |-> cost, wrt |-> asked, flag |-> FALSE]>> ELSE <<>>)
                    \o <<[a |-> "train", cost |-> cost, wrt |-> pq, kind |-> mc[1], opts |-> mc[2], solver |-> kind, dt |-> dt,
                          sopts |-> [k \in 1..Len(oq) |-> [o |-> oq[k], q |-> o[oq[k]]]],
                          v |-> ValOf(vals[cost]),
                          vals |-> [k \in 1..Len(pq) |-> [id |-> pq[k], sh |-> prog[pq[k]].s, dt |-> dt,
                                      v |-> GradOf(vals[cost], prog[pq[k]].base, NElem(prog[pq[k]].s))]]]>>
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, reads, cost, runs, iters>>

(* Barzilai-Borwein: the step size follows from the last two points *)
RECURSIVE SumTerms(_, _)
SumTerms(q, k) == IF k > Len(q) THEN Zero ELSE tAdd(q[k], SumTerms(q, k + 1))
ParVars == LET RECURSIVE F(_)
               F(k) == IF k > Len(par) THEN <<>> ELSE [j \in 1..NElem(prog[par[k]].s) |-> prog[par[k]].base + j] \o F(k + 1)
           IN  F(1)
Eta(t) ==
  IF cfg.kind # "bb" THEN Zero
  ELSE IF t = 1 THEN R!rOpt(cfg, "eta")
  ELSE LET q == ParVars
           dw(v) == tSub(R!rRef(v), R!rRef(4000 + v))
           dg(v) == tSub(R!rRef(3000 + v), R!rRef(5000 + v))
       IN  R!rClip(cfg, tDiv(SumTerms([k \in 1..Len(q) |-> tMul(dw(q[k]), dg(q[k]))], 1),
                             SumTerms([k \in 1..Len(q) |-> tMul(dg(q[k]), dg(q[k]))], 1)))

Data == (Inputs \cap Live) \ SeqToSet(par)
(* one iteration: bind, run, step; `order` says whether the machine is reset before or after the step *)
Iter ==
  /\ ph = "iter"
  /\ \E S \in SubsetCh(Data) : \E e2 \in {TLCEval(NewEnv(S))} :
     \E how \in Ch({"let", "set"}), order \in Ch({"step-reset", "reset-step"}) :
     LET q == SetToSeq(S)
         t == runs + 1
     IN  /\ env' = e2
         /\ runs' = t
         /\ iters' = iters + 1
         /\ ph' = IF iters + 1 = MaxIters THEN "done" ELSE "iter"
         /\ hist' = Append(hist, [a |-> "iter", how |-> how, str |-> order,
                lets |-> [k \in 1..Len(q) |-> [id |-> q[k], dt |-> dt, sh |-> prog[q[k]].s, in |-> e2[q[k]], n |-> prog[q[k]].base]],
                new |-> R!rRule(cfg, R!rRef(1), R!rRef(2), R!rRef(3), R!rRef(4), t),
                eta |-> Eta(t)])
         /\ (ph' = "done") => PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<prog, vals, nvar, dt, tries, mach, reads, wrt, cost, cfg, par>>

TNext == Build \/ Setup \/ Iter
=============================================================================
