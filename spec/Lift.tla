-------------------------------- MODULE Lift --------------------------------
(***************************************************************************)
(* Results: a node or an error.  Functions lifted to results apply the     *)
(* underlying function to the nodes inside, or pass on the first error     *)
(* without calling it.  A result may also be of a type of the caller's own *)
(* that knows how to make a new one of its kind ("made").                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Random, MaxOps, Fns
VARIABLES R, h, n, nn, ne
Ch(S) == IF Random THEN {RandomElement(S)} ELSE S
(* a result: k = "node" or "err"; v = which; w = the wrappers around it    *)
(* ("own": the caller's type that makes new ones, "plain": an Input that   *)
(* is no Result)                                                           *)
Node(v) == [k |-> "node", v |-> v, w |-> "node"]
Bad(e) == [k |-> "err", v |-> e, w |-> "err"]
Init == /\ n = 0 /\ nn = 2 /\ ne = 1
        /\ R = <<Node(1), Node(2), [k |-> "node", v |-> 1, w |-> "own"], [k |-> "node", v |-> 2, w |-> "plain"], Bad(1)>>
        /\ h = <<>>
Args(f) == IF f \in {"lift1", "axial", "lift1own"} THEN 1 ELSE IF f \in {"nodes3"} THEN 3 ELSE 2
FirstErr(as) == LET I == {i \in 1..Len(as) : R[as[i]].k = "err"} IN IF I = {} THEN 0 ELSE R[as[CHOOSE i \in I : \A j \in I : i <= j]].v
Owned(as) == \E i \in 1..Len(as) : R[as[i]].w = "own"
(* the underlying function succeeds with a new node or fails with a new error *)
App(f, as, fails) ==
  LET e == FirstErr(as)
      called == e = 0
      res == IF e # 0 THEN Bad(e) ELSE IF fails THEN Bad(ne + 1) ELSE [k |-> "node", v |-> nn + 1, w |-> IF Owned(as) THEN "own" ELSE "node"]
  IN  /\ R' = Append(R, res)
      /\ ne' = IF called /\ fails THEN ne + 1 ELSE ne
      /\ nn' = IF called /\ ~fails THEN nn + 1 ELSE nn
      /\ h' = Append(h, [a |-> f, args |-> as, called |-> called, fails |-> fails, new |-> IF fails THEN ne + 1 ELSE nn + 1, res |-> res,
                         with |-> IF called THEN [i \in 1..Len(as) |-> R[as[i]].v] ELSE <<>>])
(* a list of inputs becomes a list of nodes, or the first error *)
Collect(as) ==
  LET e == FirstErr(as)
  IN  /\ h' = Append(h, [a |-> "collect", args |-> as, called |-> FALSE, fails |-> e # 0, new |-> 0, with |-> IF e = 0 THEN [i \in 1..Len(as) |-> R[as[i]].v] ELSE <<>>,
                         res |-> IF e # 0 THEN Bad(e) ELSE Node(0)])
      /\ UNCHANGED <<R, ne, nn>>
Check1(i) == /\ h' = Append(h, [a |-> "check", args |-> <<i>>, called |-> FALSE, fails |-> R[i].k = "err", new |-> 0, with |-> <<>>, res |-> R[i]])
             /\ UNCHANGED <<R, ne, nn>>
(* a node and error pair becomes a result *)
Wrap(i, fails) ==
  LET ok == ~fails /\ R[i].k = "node"
      res == IF ok THEN [R[i] EXCEPT !.w = IF R[i].w = "plain" THEN "node" ELSE R[i].w] ELSE Bad(IF fails THEN ne + 1 ELSE R[i].v)
  IN  /\ R[i].k = "node" \/ fails
      /\ R' = Append(R, res)
      /\ ne' = IF fails THEN ne + 1 ELSE ne
      /\ h' = Append(h, [a |-> "wrap", args |-> <<i>>, called |-> FALSE, fails |-> fails, new |-> ne + 1, with |-> <<>>, res |-> res])
      /\ UNCHANGED nn
I == 1..Len(R)
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E f \in Ch(Fns), fails \in Ch(BOOLEAN), i \in Ch(I), j \in Ch(I) :
                App(f, IF Args(f) = 1 THEN <<i>> ELSE <<i, j>>, fails)
           \/ \E i \in Ch(I), j \in Ch(I), k \in Ch(I) : Collect(<<i, j, k>>)
           \/ \E i \in Ch(I) : Check1(i)
           \/ \E i \in Ch(I), fails \in Ch(BOOLEAN) : Wrap(i, fails)
        /\ n' = MaxOps => PrintT("@@" \o ToJson(h'))
=============================================================================
