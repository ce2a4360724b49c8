-------------------------------- MODULE Curv --------------------------------
(***************************************************************************)
(* Gradients of gradients: what a request answers is an expression like    *)
(* any other, and a weighted sum of it can be differentiated again.        *)
(*                                                                         *)
(* The elements of inputs stay symbolic (VarV in place of V), so that the  *)
(* first derivatives are terms in them; D differentiates terms.            *)
(***************************************************************************)
EXTENDS Grads

VarV(n, k) == <<<<"var", <<n>>, <<k>>, 1>>, [j \in {k} |-> One]>>

RECURSIVE D(_, _)
D(t, k) ==
  IF IsI(t) THEN Zero
  ELSE IF t[1] = "var" THEN (IF t[3][1] = k THEN One ELSE Zero)
  ELSE IF t = Undef THEN Undef
  ELSE IF t[1] \in {"add", "sub", "mul", "div"} THEN
    CHOOSE y \in {CASE t[1] = "add" -> tAdd(a, b)
                    [] t[1] = "sub" -> tSub(a, b)
                    [] t[1] = "mul" -> tAdd(tMul(a, t[3]), tMul(t[2], b))
                    [] t[1] = "div" -> tSub(tDiv(a, t[3]), tDiv(tMul(t, b), t[3])) :
                  a \in {D(t[2], k)}, b \in {D(t[3], k)}} : TRUE
  ELSE
    CHOOSE y \in {IF IsZ(a) THEN Zero ELSE
                  CASE t[1] = "neg"      -> tNeg(a)
                    [] t[1] = "pow"      -> IF IsI(t[3]) THEN tMul(tMul(t[3], tPow(t[2], tSub(t[3], One))), a) ELSE Undef
                    [] t[1] = "exp"      -> tMul(t, a)
                    [] t[1] = "expm1"    -> tMul(tExp(t[2]), a)
                    [] t[1] = "ln"       -> tDiv(a, t[2])
                    [] t[1] = "log2"     -> tDiv(a, tMul(t[2], T1("ln", I(2))))
                    [] t[1] = "log1p"    -> tDiv(a, tAdd(One, t[2]))
                    [] t[1] = "sqrt"     -> tDiv(a, tMul(I(2), t))
                    [] t[1] = "sin"      -> tMul(T1("cos", t[2]), a)
                    [] t[1] = "cos"      -> tNeg(tMul(T1("sin", t[2]), a))
                    [] t[1] = "tanh"     -> tMul(tSub(One, tMul(t, t)), a)
                    [] t[1] = "sigmoid"  -> tMul(tMul(t, tSub(One, t)), a)
                    [] t[1] = "softplus" -> tMul(T1("sigmoid", t[2]), a)
                    [] OTHER -> Undef :
                  a \in {D(t[2], k)}} : TRUE

(* the sum of the answer to request r for input x, weighted with g *)
RECURSIVE SumOf(_, _)
SumOf(g, h) == IF g = <<>> THEN Zero ELSE tAdd(tMul(Head(g)[1], Head(h)), SumOf(Tail(g), Tail(h)))
Weighted(r, x, g) == SumOf(g, GradOf(Cost1(reqs[r]), prog[x].base, NElem(prog[x].s)))
Second(t, i) == [k \in 1..NElem(prog[i].s) |-> D(t, prog[i].base + k)]
Curved(t) == {i \in Inputs : \E k \in 1..NElem(prog[i].s) : ~IsZ(D(t, prog[i].base + k))}

ReqSecond ==
  /\ ph = "ask" /\ Loose = {} /\ ~early /\ reqs # <<>> /\ Len(reqs) <= MaxReqs
  /\ \E r \in Ch({n \in 1..Len(reqs) : reqs[n].of = 0 /\ reqs[n].ws = <<>>} \cup {0}) :
     r # 0 /\ \E j \in Ch(1..Len(reqs[r].wrt)) :
     \E z \in {TLCEval(PutWeights([prog |-> prog, env |-> env, vals |-> vals, nvar |-> nvar, hist |-> hist, ids |-> <<>>], <<reqs[r].wrt[j]>>))} :
     \E t \in {TLCEval(Weighted(r, reqs[r].wrt[j], z.vals[z.ids[1]].x))} :
     \E all \in {TLCEval(Curved(t))} :
       /\ Size(t) < 2000 /\ all # {}
       /\ \E W0 \in SubsetCh(all) : \E w \in {Wanted(NonEmpty(all, W0))} :
            /\ prog' = z.prog /\ env' = z.env /\ vals' = z.vals /\ nvar' = z.nvar
            /\ reqs' = Append(reqs, [outs |-> <<reqs[r].wrt[j]>>, ws |-> z.ids, wrt |-> w, of |-> r])
            /\ hist' = Append(z.hist, [a |-> "ask", n |-> Len(reqs) + 1, of |-> r, id |-> reqs[r].wrt[j], args |-> z.ids, wrt |-> w])
  /\ UNCHANGED <<dt, tries, ph, svars, early>>

CAnswer(n) ==
  LET r == reqs[n] IN
  IF r.of = 0 THEN Answers(n)
  ELSE CHOOSE y \in {[k \in 1..Len(r.wrt) |-> [n |-> n, id |-> r.wrt[k], sh |-> prog[r.wrt[k]].s, dt |-> dt, v |-> Second(t, r.wrt[k])]] :
                     t \in {TLCEval(Weighted(r.of, r.outs[1], vals[r.ws[1]].x))}} : TRUE

(* two requests at least, one of them mostly about the answer to another *)
CAsked == Len(reqs) >= MINI(2, MaxReqs) /\ Asked
CNext == Build \/ Sums \/ Early \/ ReqGrad \/ ReqSecond \/ CAsked \/ GRun \/ ((NewVM \/ Reset \/ Let) /\ UNCHANGED gvars)
=============================================================================
