-------------------------------- MODULE Bind --------------------------------
(***************************************************************************)
(* Binding values to the nodes of a graph.  The graph has inputs of some   *)
(* element types and shapes, a node computed from each input (the sum of   *)
(* twice its elements), and a constant.  Values of every kind are offered  *)
(* to every node between runs.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Random, MaxOps, Dts, Shapes, Machines, NIn
VARIABLES V, h, n, run

vars == <<V, h, n, run>>
Ch(X) == IF Random THEN {RandomElement(X)} ELSE X
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
In == 1..NIn
Float == {"f64", "f32"}
Elem(i) == ((i * 7) % 11) - 3
(* what can be offered: a Go scalar, a scalar value, a tensor, and things that are no values *)
Offers == {[k |-> k, dt |-> dt, sh |-> <<>>] : k \in {"go", "prim"}, dt \in Dts}
          \cup {[k |-> "tens", dt |-> dt, sh |-> s] : dt \in Dts, s \in Shapes}
          \cup {[k |-> k, dt |-> "", sh |-> <<>>] : k \in {"nil", "str", "slice"}}
VecLike(s) == Len(s) = 1 \/ (Len(s) = 2 /\ (s[1] = 1 \/ s[2] = 1))
(* the library does not tell a vector from a matrix with one row or column: nothing is said there *)
Open(a, b) == a # b /\ VecLike(a) /\ VecLike(b) /\ Prod(a) = Prod(b)
Fits(v, o) == o.dt = v.dt /\ o.sh = v.sh
Bound == \A i \in In : V[i].x # <<>>
Obs(v2) == [i \in In |-> [x |-> v2[i].x]]

Let == \E t \in Ch([k : {"in", "op"}, i : In] \cup [k : {"const"}, i : {0}]) : \E o \in Ch({q \in Offers : t.k = "in" => ~Open(q.sh, V[t.i].sh)}) :
  LET x == [j \in 1..Prod(o.sh) |-> Elem(n + j)]
      ok == t.k = "in" /\ Fits(V[t.i], o)
  IN  /\ V' = IF ok THEN [V EXCEPT ![t.i].x = x] ELSE V
      /\ h' = Append(h, [a |-> "let", t |-> t.k, i |-> t.i, k |-> o.k, dt |-> o.dt, sh |-> o.sh, x |-> x, ok |-> ok, in |-> Obs(V')])
      /\ UNCHANGED run
(* a fitting value for an input: makes runs frequent enough *)
LetGood == \E i \in Ch(In) : \E k \in Ch(IF V[i].sh = <<>> THEN {"go", "prim", "tens"} ELSE {"tens"}) :
  LET sh == V[i].sh
      x == [j \in 1..Prod(sh) |-> Elem(n + j)]
  IN  /\ V' = [V EXCEPT ![i].x = x]
      /\ h' = Append(h, [a |-> "let", t |-> "in", i |-> i, k |-> k, dt |-> V[i].dt, sh |-> sh, x |-> x, ok |-> TRUE, in |-> Obs(V')])
      /\ UNCHANGED run
Run == /\ Bound /\ run' = run + 1 /\ UNCHANGED V
       /\ h' = Append(h, [a |-> "run", in |-> Obs(V), out |-> [i \in In |-> 2 * Sum(V[i].x)]])
Made(v, g) == \E m \in Ch(Machines) : \E f \in Ch([In -> (IF m = "lisp" THEN Float ELSE Dts) \X Shapes]) :
                /\ v = [i \in In |-> [dt |-> f[i][1], sh |-> f[i][2], x |-> <<>>]]
                /\ g = <<[a |-> "graph", m |-> m, nodes |-> [i \in In |-> [dt |-> f[i][1], sh |-> f[i][2]]]]>>
(* behaviours drawn at random share their initial state, so they draw their graph in their first step *)
Init == /\ n = 0 /\ run = 0
        /\ IF Random THEN V = <<>> /\ h = <<>> ELSE Made(V, h)
Make == h = <<>> /\ Made(V', h') /\ UNCHANGED <<n, run>>
Step == /\ h # <<>> /\ n < MaxOps /\ n' = n + 1
        /\ \E c \in Ch(IF Random THEN 1..6 ELSE {1, 3, 5}) :
             IF c = 5 /\ Bound THEN Run ELSE IF c <= 2 \/ (~Random /\ c = 3) THEN Let ELSE LetGood
        /\ n' = MaxOps => PrintT("@@" \o ToJson(h'))
Next == Make \/ Step
(* every offer to every node, before the first run and between two runs *)
Next1 == /\ \/ n = 0 /\ n' = 9 /\ Let
            \/ n = 0 /\ n' = 1 /\ LetGood
            \/ n = 1 /\ n' = 2 /\ Run
            \/ n = 2 /\ n' = 3 /\ Let
            \/ n = 3 /\ n' = 9 /\ Run
         /\ n' = 9 => PrintT("@@" \o ToJson(h'))
Keeps == \A i \in In : V[i].x # <<>> => Len(V[i].x) = Prod(V[i].sh)
=============================================================================
