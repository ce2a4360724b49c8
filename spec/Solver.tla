------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* Solvers.  A solver has a configuration and, for every parameter, state  *)
(* that it keeps from step to step (first and second moment m and v, the   *)
(* weights p of the step before).  A step turns weights, gradients and     *)
(* state into new weights and state by the rule of the solver; afterwards  *)
(* the gradients are zero.                                                 *)
(*                                                                         *)
(* The numbers are kept in registers (w, m, v, p of every element of every *)
(* parameter, and one for the whole solver); a step says for each register *)
(* by which term over the registers it is replaced, and the replayer keeps *)
(* the values.                                                             *)
(***************************************************************************)
EXTENDS Rules, Json, FiniteSets
CONSTANTS Random, MaxSteps, Kinds, Shapes, MaxPar, Carriers, Dts, Wild
VARIABLES cfg, P, t, pg, n, h
vars == <<cfg, P, t, pg, n, h>>
Ch(S) == IF Random THEN {RandomElement(S)} ELSE S
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
NE(p) == Prod(p.sh)
(* registers: of element i of parameter k *)
Reg(s, k, i) == rRef(k * 1000 + i * 10 + s)
W(k, i) == Reg(1, k, i)
M(k, i) == Reg(2, k, i)
V2(k, i) == Reg(3, k, i)
Old(k, i) == Reg(4, k, i)

(* Barzilai-Borwein: the step size follows from the last two points *)
Elems == {<<k, i>> : k \in 1..Len(P), i \in 1..8}
Has(x) == x[2] <= NE(P[x[1]])
RECURSIVE SumS(_, _)
SumS(S, f) == IF S = {} THEN Zero ELSE LET x == CHOOSE y \in S : TRUE IN tAdd(f[x], SumS(S \ {x}, f))
BBEta(g) ==
  LET E == {x \in Elems : Has(x)}
      dg(x) == I(g[x[1]][x[2]] - pg[x[1]][x[2]])
      dw(x) == tSub(W(x[1], x[2]), Old(x[1], x[2]))
      fNum == [x \in E |-> tMul(dw(x), dg(x))]
      fDen == [x \in E |-> tMul(dg(x), dg(x))]
      q == tDiv(SumS(E, fNum), SumS(E, fDen))
  IN  IF t = 0 THEN rOpt(cfg, "eta") ELSE rClip(cfg, q)

(***************************************************************************)
(* Behaviour                                                               *)
(***************************************************************************)
Vals == -4..4
Seqs(k) == IF Random THEN {TLCEval([i \in 1..k |-> RandomElement(Vals)])} ELSE [1..k -> {-2, 0, 3}]
SubsetCh(S) == IF Random THEN {TLCEval({x \in S : RandomElement(1..5) <= 2})} ELSE SUBSET S
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>}
             ELSE IF Random THEN LET x == RandomElement(S) IN {<<x>> \o r : r \in Orders(S \ {x})}
             ELSE LET x == CHOOSE y \in S : TRUE IN {<<x>> \o r : r \in Orders(S \ {x})}
Init == /\ cfg = [kind |-> "none", opts |-> <<>>] /\ P = <<>> /\ t = 0 /\ pg = <<>> /\ n = 0 /\ h = <<>>
Make ==
  /\ cfg.kind = "none"
  /\ \E kind \in Ch(Kinds) : \E S \in SubsetCh(rTakes(kind)) :
     \E o \in {IF Random THEN TLCEval([x \in S |-> RandomElement(rChoices[x])]) ELSE [x \in S |-> CHOOSE y \in rChoices[x] : TRUE]} :
     \E q \in {TLCEval(y) : y \in Orders(S)} :
       /\ cfg' = [kind |-> kind, opts |-> o]
       /\ h' = Append(h, [a |-> "new", kind |-> kind, opts |-> [k \in 1..Len(q) |-> [o |-> q[k], q |-> o[q[k]]]]])
  /\ UNCHANGED <<P, t, pg, n>>
Param ==
  /\ cfg.kind # "none" /\ t = 0 /\ Len(P) < MaxPar
  /\ \E sh \in Ch(Shapes) : \E dt \in Ch(Dts) : \E c \in Ch(Carriers) :
     LET p == [sh |-> sh, dt |-> dt] IN
     \E w \in Seqs(NE(p)) :
       /\ P' = Append(P, p)
       /\ pg' = Append(pg, [i \in 1..NE(p) |-> 0])
       /\ h' = Append(h, [a |-> "par", sh |-> sh, dt |-> dt, how |-> c, w |-> w])
  /\ UNCHANGED <<cfg, t, n>>
RECURSIVE Grads(_)
Grads(k) == IF k = 0 THEN {<<>>} ELSE {Append(r, x) : r \in Grads(k - 1), x \in Seqs(NE(P[k]))}
Step ==
  /\ Len(P) > 0 /\ t < MaxSteps
  /\ \E g \in {TLCEval(x) : x \in Grads(Len(P))} :
       LET same == cfg.kind = "bb" /\ t > 0 /\ g = pg
           upd(k) == [i \in 1..NE(P[k]) |-> rRule(cfg, W(k, i), M(k, i), V2(k, i), I(g[k][i]), t + 1)]
           old(k) == [i \in 1..NE(P[k]) |-> IF cfg.kind = "bb" THEN W(k, i) ELSE Zero]
       IN  IF same THEN UNCHANGED <<t, pg, h>>
           ELSE /\ t' = t + 1 /\ pg' = g
                /\ h' = Append(h, [a |-> "step", g |-> g, eta |-> IF cfg.kind = "bb" THEN BBEta(g) ELSE Zero,
                                   new |-> TLCEval([k \in 1..Len(P) |-> [u |-> upd(k), p |-> old(k)]])])
  /\ UNCHANGED <<cfg, P>>
(* between steps the weights may be set to something else *)
Poke ==
  /\ Wild /\ t > 0 /\ t < MaxSteps
  /\ \E k \in Ch(1..Len(P)) : \E w \in Seqs(NE(P[k])) :
       h' = Append(h, [a |-> "poke", k |-> k, w |-> w])
  /\ UNCHANGED <<cfg, P, t, pg>>
Done == t = MaxSteps
Next ==
  IF cfg.kind = "none" THEN Make
  ELSE IF t = 0 /\ Len(P) < MaxPar /\ (Len(P) = 0 \/ (\E b \in Ch({TRUE, FALSE}) : b)) THEN Param
  ELSE /\ ~Done
       /\ n < 4 * MaxSteps /\ n' = n + 1
       /\ \E c \in Ch(1..6) : (IF Wild /\ c = 1 /\ t > 0 THEN Poke ELSE Step)
       /\ t' = MaxSteps => PrintT("@@" \o ToJson(h'))
=============================================================================
