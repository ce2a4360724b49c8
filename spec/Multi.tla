------------------------------- MODULE Multi -------------------------------
(***************************************************************************)
(* Several machines on one graph (the whole graph, sub-graphs below some   *)
(* roots, functions compiled for some outputs) and several graphs (clones  *)
(* that may go their own way).                                             *)
(*                                                                         *)
(* A world is a graph: the nodes it has, its binding of the inputs, the    *)
(* meaning of all nodes under it, and what its variables show since they   *)
(* were last written.  A run of a machine shows the current meaning of the *)
(* machine's nodes in its own world, and changes nothing else anywhere.    *)
(***************************************************************************)
EXTENDS Sess

CONSTANTS MaxW, MaxM, MaxEv, Hows, ExtBag
VARIABLES W, ms, ev
mvars == <<W, ms, ev>>

MInit == Init /\ W = <<>> /\ ms = <<>> /\ ev = 0

(* how the session goes on from Ask of Sess, which leaves ph = "vm" *)
Begin ==
  /\ ph = "vm" /\ ph' = "multi"
  /\ W' = <<[has |-> Live, env |-> env, vals |-> vals, shown |-> <<>>, bound |-> <<>>, gr |-> <<>>]>>
  /\ UNCHANGED <<pvars, svars, ms, ev>>

RECURSIVE BelowFrom(_, _)
BelowFrom(i, S) == IF i = 0 THEN S ELSE BelowFrom(i - 1, IF i \in S /\ prog[i].k = "op" THEN S \cup SeqToSet(prog[i].a) ELSE S)
Below(S) == BelowFrom(Len(prog), S)
ExpW(w, i) == [id |-> i, sh |-> w.vals[i].s, dt |-> NodeDt(i), v |-> ValOf(w.vals[i])]
ExpsW(w, S) == LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> ExpW(w, q[k])]
GradsW(w) == LET q == SetToSeq(wrt)
             IN  [k \in 1..Len(q) |-> [id |-> q[k], sh |-> prog[q[k]].s, dt |-> dt, v |-> GradOf(w.vals[cost], prog[q[k]].base, NElem(prog[q[k]].s))]]
Known(f) == LET q == SetToSeq(DOMAIN f) IN [k \in 1..Len(q) |-> f[q[k]]]
Over(f, S, w) == [i \in DOMAIN f \cup S |-> IF i \in S THEN ExpW(w, i) ELSE f[i]]

Ev(e) == /\ ph = "multi" /\ ev < MaxEv /\ ev' = ev + 1
         /\ hist' = hist \o e
         /\ ph' = IF ev + 1 = MaxEv THEN "done" ELSE ph
         /\ (ph' = "done") => PrintT("@@" \o ToJson(hist'))

Roots1(g) == LET Ops1 == {i \in W[g].has : prog[i].k = "op"} IN
             IF Random THEN {TLCEval({RandomElement(Ops1) : k \in 1..RandomElement(1..3)})} ELSE {{i, j} : i, j \in Ops1}
NewM ==
  /\ Len(ms) < MaxM
  /\ \E g \in Ch(1..Len(W)) : \E R \in Roots1(g) : \E how \in ChBag(Hows) : \E mc \in ChBag(Machines) :
     LET one == CHOOSE i \in R : TRUE
         R1 == IF how = "one" THEN {one} ELSE R
         ins == Below(R1) \cap Inputs
         ok == how # "fn" \/ mc[1] = "tape"
         kind == IF ok THEN mc ELSE <<"tape", <<>>>>
     IN  /\ ins # {}
         /\ ms' = Append(ms, [g |-> g, how |-> how, R |-> R1, nodes |-> IF how = "full" THEN W[g].has ELSE Below(R1), kind |-> kind, ran |-> FALSE])
         /\ Ev(<<[a |-> "mvm", g |-> g - 1, n |-> Len(ms) + 1, how |-> how, ids |-> SetToSeq(R1), args |-> SetToSeq(Below(R1) \cap Inputs),
                  kind |-> kind[1], opts |-> kind[2]]>>)
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, svars, W>>

(* what the run of a machine shows.  A machine that traces binds all its   *)
(* nodes, one that does not binds at least the requested ones.             *)
Traced(m) == m.kind[1] = "lisp" \/ "trace" \in SeqToSet(m.kind[2])
Shows(m) == IF Traced(m) THEN {i \in m.nodes : prog[i].k = "op"} ELSE IF m.how = "full" THEN {} ELSE m.R
ReadsRun(m) == IF m.g # 1 THEN {} ELSE IF m.how \in {"exact", "fn"} THEN {} ELSE reads \cap m.nodes
NewEnvW(w, S) == [i \in 1..Len(prog) |->
                    IF i \in S THEN (CHOOSE v \in DataFor(NElem(prog[i].s), prog[i].gen, i + 11 * ev) : TRUE) ELSE w.env[i]]
LetE(g, e2, S, how) == LET q == SetToSeq(S) IN
  IF S = {} THEN <<>> ELSE <<[a |-> how, g |-> g - 1, lets |-> [k \in 1..Len(q) |-> [id |-> q[k], dt |-> dt, sh |-> prog[q[k]].s, in |-> e2[q[k]]]]]>>
(* A machine that differentiates leaves gradients at the inputs, which a   *)
(* clone of the graph gets as its own.                                     *)
(* Afterwards every world is looked at: inputs and what is shown.  What is *)
(* bound by runs that do not trace is memory of the machine: only the run  *)
(* itself says what is there.                                              *)
Obs(ws) == [k \in 1..Len(ws) |-> [g |-> k - 1, vals |-> ExpsW(ws[k], ws[k].has \cap (Inputs \cup Consts)) \o Known(ws[k].bound),
                                  reads |-> IF k = 1 THEN Known(ws[k].shown) ELSE <<>>, grads |-> ws[k].gr]]
RunM ==
  /\ \E j \in Ch(1..Len(ms)) :
     LET m == ms[j] IN
     \E S \in SubsetCh(Inputs \cap W[m.g].has) : \E how \in Ch({"let", "let", "poke"}) :
     \E e2 \in {TLCEval(NewEnvW(W[m.g], S))} : \E v2 \in {TLCEval(EvalAll(e2))} :
     LET good == TRUE = DomFrom(1, v2)
         w0 == IF good THEN [W[m.g] EXCEPT !.env = e2, !.vals = v2] ELSE W[m.g]
         sh == Shows(m)
         diff == m.how = "full" /\ ((GradMode = "auto" /\ m.kind = <<"lisp", <<>>>>)
                                \/ (GradMode = "sym" /\ wrt # {} /\ m.kind = <<"tape", <<"bind">>>>))
         gr == IF diff \/ (m.how = "full" /\ m.kind[1] = "tape" /\ GradMode = "sym" /\ wrt # {}) THEN GradsW(w0) ELSE <<>>
         w1 == [w0 EXCEPT !.gr = IF diff THEN gr ELSE @, !.shown = Over(@, ReadsRun(m), w0),
                          !.bound = IF Traced(m) THEN Over(@, sh, w0) ELSE [i \in DOMAIN @ \ m.nodes |-> @[i]]]
         ws == [W EXCEPT ![m.g] = w1]
     IN  /\ W' = ws
         /\ ms' = [ms EXCEPT ![j].ran = TRUE]
         /\ Ev((IF good THEN LetE(m.g, e2, S, how) ELSE <<>>)
               \o <<[a |-> "mrun", g |-> m.g - 1, n |-> j, flag |-> m.ran, vals |-> ExpsW(w1, sh),
                     grads |-> gr, how |-> IF diff THEN "auto" ELSE "",
                     obs |-> Obs(ws)]>>)
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, svars>>

CloneW ==
  /\ Len(W) < MaxW
  /\ \E g \in Ch(1..Len(W)) :
       /\ W' = Append(W, [W[g] EXCEPT !.shown = <<>>])
       /\ Ev(<<[a |-> "cloneg", g |-> g - 1, n |-> Len(W), obs |-> Obs(W')]>>)
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, svars, ms>>

(* one world grows: the others do not see it.  Machines made before do not *)
(* run the new node.                                                       *)
Extend ==
  /\ Len(ExtBag) > 0 /\ ph = "multi" /\ ev < MaxEv
  /\ \E g \in Ch(1..Len(W)) : \E op \in ChBag(ExtBag) :
     \E i \in Ch(Usable \cap W[g].has) : \E j \in Ch(Usable \cap W[g].has) :
     LET a == IF Arity(op) = 1 THEN <<i>> ELSE <<i, j>>
         ts == [k \in 1..Len(a) |-> W[g].vals[a[k]]]
         id == Len(prog) + 1
     IN  /\ Legal(op, ts)
         /\ \E p \in Ch1(Params(op, ts)) : \E r \in {TLCEval(Eval(op, p, ts))} :
            /\ TRUE = DomOk(op, ts) /\ TRUE = SizeOk(r)
            /\ ~\E k \in W[g].has : prog[k].k = "op" /\ prog[k].op = op /\ prog[k].p = p /\ prog[k].a = a
            /\ prog' = Append(prog, [k |-> "op", op |-> op, p |-> p, a |-> a, s |-> r.s])
            /\ env' = Append(env, <<>>)
            /\ vals' = Append(vals, r)
            /\ W' = [k \in 1..Len(W) |-> [W[k] EXCEPT !.env = Append(@, <<>>), !.vals = Append(@, IF k = g THEN r ELSE Eval(op, p, [l \in 1..Len(a) |-> W[k].vals[a[l]]])),
                                                       !.has = IF k = g THEN @ \cup {id} ELSE @]]
            /\ \A k \in 1..Len(W) : TRUE = DomOk(op, [l \in 1..Len(a) |-> W[k].vals[a[l]]])
            /\ Ev(<<[a |-> "op", g |-> g - 1, id |-> id, op |-> op, p |-> p, args |-> a, dt |-> dt, sh |-> r.s]>>)
  /\ UNCHANGED <<nvar, dt, tries, svars, ms>>
(* a random choice may be one that is not possible *)
Skip == ph = "multi" /\ Random /\ UNCHANGED <<vars, mvars>>

MNext == \/ (Inp \/ Ops \/ Cost \/ Ask) /\ UNCHANGED mvars
         \/ Begin
         \/ /\ ph = "multi"
            /\ \E c \in Ch({"m", "r", "r", "c", "x"}) :
                 \/ c = "m" /\ NewM
                 \/ c = "r" /\ ms # <<>> /\ RunM
                 \/ c = "c" /\ CloneW
                 \/ c = "x" /\ Extend
         \/ Skip
=============================================================================
