------------------------------- MODULE Grads -------------------------------
(***************************************************************************)
(* Several requests for gradients in one graph: of different costs, with   *)
(* respect to different inputs, and of several outputs at once with given  *)
(* gradients of the outputs (vector-Jacobian products).  Each request is   *)
(* answered as if it were the only one.                                    *)
(***************************************************************************)
EXTENDS Sess

CONSTANT MaxReqs
VARIABLES reqs, early
gvars == <<reqs, early>>

GInit == Init /\ reqs = <<>> /\ early \in BOOLEAN

Build == (Inp \/ Ops) /\ UNCHANGED gvars

(* every loose end gets a scalar cost of its own *)
Loose == {i \in Sinks : vals[i].s # <<>>}
Sums == /\ ph = "ask" /\ reqs = <<>> /\ Loose # {}
        /\ ApplyOp("Sum", <<>>, <<CHOOSE i \in Loose : \A j \in Loose : i <= j>>)
        /\ UNCHANGED <<ph, svars, gvars>>

Wanted(S) == SelectSeq(SetToSeq(S), LAMBDA i : TRUE)
ReadEvs(R) == LET q == Wanted(R) IN [k \in 1..Len(q) |-> [a |-> "read", id |-> q[k]]]

(* what is read may be said before or after the gradients are asked for *)
Early == /\ ph = "ask" /\ Loose = {} /\ early
         /\ early' = FALSE
         /\ \E R \in SubsetCh(OpNodes) :
              /\ reads' = R
              /\ hist' = hist \o ReadEvs(R)
         /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, ph, mach, wrt, cost, runs, reqs>>

Deps(S) == {i \in Inputs : \E o \in S : o \in DependsOn(i)}
Costs == {i \in OpNodes \cap Usable : vals[i].s = <<>> /\ Deps({i}) # {}}
Outs == {i \in OpNodes \cap Usable : Deps({i}) # {}}

Whole == dt \notin {"f64", "f32"}

(* Requests that cannot be answered are refused and leave nothing behind: the cost is not a   *)
(* scalar, or not a floating point number, or does not depend on what is asked for, or that   *)
(* is no input.                                                                               *)
Refused(kind) ==
  CASE kind = "shape" -> {<<o, w>> : <<o, w>> \in {q \in (Outs \X Inputs) : vals[q[1]].s # <<>> /\ q[2] \in Deps({q[1]})}}
    [] kind = "node"  -> Costs \X OpNodes
    [] kind = "apart" -> {<<c, w>> : <<c, w>> \in {q \in (Costs \X Inputs) : q[2] \notin Deps({q[1]})}}
    [] kind = "whole" -> IF Whole THEN {<<c, w>> : <<c, w>> \in {q \in (Costs \X Inputs) : q[2] \in Deps({q[1]})}} ELSE {}
ReqBad == /\ ph = "ask" /\ Loose = {} /\ ~early /\ Len(reqs) < MaxReqs
          /\ IF hist[Len(hist)].a = "ask" THEN hist[Len(hist)].n # 0 ELSE TRUE
          /\ \E kind \in Ch({k \in {"shape", "node", "apart", "whole"} : Refused(k) # {}} \cup {"none"}) :
             kind # "none" /\ \E q \in Ch(Refused(kind)) : \E both \in Ch(BOOLEAN) :
               \E w \in {IF both /\ Deps({q[1]}) \ {q[2]} # {} THEN <<CHOOSE i \in Deps({q[1]}) \ {q[2]} : TRUE, q[2]>> ELSE <<q[2]>>} :
                 hist' = Append(hist, [a |-> "ask", n |-> 0, cost |-> q[1], wrt |-> w, err |-> TRUE])
          /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, ph, svars, gvars>>

NonEmpty(S, W) == IF W = {} THEN S ELSE W
ReqGrad == /\ ph = "ask" /\ Loose = {} /\ ~early /\ Len(reqs) < MaxReqs /\ ~Whole
           /\ Costs # {}
           /\ \E c \in Ch(Costs) : \E W0 \in SubsetCh(Deps({c})) :
              \E w \in {Wanted(NonEmpty(Deps({c}), W0))} :
                /\ reqs' = Append(reqs, [outs |-> <<c>>, ws |-> <<>>, wrt |-> w, of |-> 0])
                /\ hist' = Append(hist, [a |-> "ask", n |-> Len(reqs) + 1, cost |-> c, wrt |-> w])
           /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, ph, svars, early>>

(* one or two outputs, the gradient of each an input of its shape *)
RECURSIVE PutWeights(_, _)
PutWeights(z, q) ==
  IF q = <<>> THEN z
  ELSE LET s == vals[Head(q)].s
           id == Len(z.prog) + 1
           v == CHOOSE y \in DataFor(NElem(s), "any", id) : TRUE
       IN  PutWeights([prog |-> Append(z.prog, [k |-> "in", s |-> s, gen |-> "any", base |-> z.nvar]),
                       env |-> Append(z.env, v), vals |-> Append(z.vals, InT(s, v, z.nvar)), nvar |-> z.nvar + NElem(s),
                       hist |-> Append(z.hist, [a |-> "input", id |-> id, dt |-> dt, sh |-> s, v |-> v, base |-> z.nvar, how |-> "with"]),
                       ids |-> Append(z.ids, id)], Tail(q))
ReqBack == /\ ph = "ask" /\ Loose = {} /\ ~early /\ Len(reqs) < MaxReqs /\ ~Whole
           /\ Outs # {}
           /\ \E o1 \in Ch(Outs), o2 \in Ch(Outs) :
              \E o \in {IF o1 = o2 THEN <<o1>> ELSE <<o1, o2>>} :
              \E W0 \in SubsetCh(Deps({o1, o2})) :
              \E z \in {TLCEval(PutWeights([prog |-> prog, env |-> env, vals |-> vals, nvar |-> nvar, hist |-> hist, ids |-> <<>>], o))} :
              LET all == Deps({o1, o2})
                  \* every output must depend on something that is asked for
                  w == Wanted(IF \A k \in 1..Len(o) : Deps({o[k]}) \cap W0 # {} THEN W0 ELSE all)
              IN  /\ prog' = z.prog /\ env' = z.env /\ vals' = z.vals /\ nvar' = z.nvar
                  /\ reqs' = Append(reqs, [outs |-> o, ws |-> z.ids, wrt |-> w, of |-> 0])
                  /\ hist' = Append(z.hist, [a |-> "ask", n |-> Len(reqs) + 1, cost |-> 0, ids |-> o, args |-> z.ids, wrt |-> w])
           /\ UNCHANGED <<dt, tries, ph, svars, early>>

Asked == /\ ph = "ask" /\ Loose = {} /\ ~early
         /\ reqs # <<>> \/ (Costs = {} /\ Outs = {}) \/ Whole
         /\ ph' = "vm"
         /\ \E R \in IF reads = {} THEN SubsetCh(OpNodes) ELSE {reads} :
              /\ reads' = R
              /\ hist' = IF reads = {} THEN hist \o ReadEvs(R) ELSE hist
         /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, mach, wrt, cost, runs, gvars>>

(* the function a request differentiates *)
Part(o, w) == CHOOSE y \in {IF t.s = <<>> THEN t ELSE Eval("Sum", <<>>, <<t>>) :
                            t \in {TLCEval(Eval("HadamardProd", <<>>, <<vals[o], vals[w]>>))}} : TRUE
Cost1(r) == IF r.ws = <<>> THEN vals[r.outs[1]]
            ELSE IF Len(r.outs) = 1 THEN Part(r.outs[1], r.ws[1])
            ELSE Eval("Add", <<>>, <<Part(r.outs[1], r.ws[1]), Part(r.outs[2], r.ws[2])>>)
Answers(n) == LET r == reqs[n] IN
  CHOOSE y \in {[k \in 1..Len(r.wrt) |->
       [n |-> n, id |-> r.wrt[k], sh |-> prog[r.wrt[k]].s, dt |-> dt, v |-> GradOf(c, prog[r.wrt[k]].base, NElem(prog[r.wrt[k]].s))]] :
       c \in {TLCEval(Cost1(r))}} : TRUE
Answer(n) == Answers(n)
RECURSIVE AllFrom(_)
AllFrom(n) == IF n > Len(reqs) THEN <<>> ELSE Answer(n) \o AllFrom(n + 1)

GRun == /\ ph = "run" /\ runs < MaxRuns /\ (reqs # <<>> \/ Whole)
        /\ runs' = runs + 1
        /\ ph' = IF runs + 1 = MaxRuns THEN "done" ELSE "idle"
        /\ hist' = Append(hist, [a |-> "run", reads |-> ExpSeq(reads), vals |-> ExpSeq(Observed), grads |-> <<>>, asked |-> AllFrom(1)])
        /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, mach, reads, wrt, cost, gvars>>
        /\ (ph' = "done") => PrintT("@@" \o ToJson(hist'))

GNext == Build \/ Sums \/ Early \/ ReqBad \/ ReqGrad \/ ReqBack \/ Asked \/ GRun \/ ((NewVM \/ Reset \/ Let) /\ UNCHANGED gvars)
=============================================================================
