------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The expression graph as a data structure: building, removing, cloning,  *)
(* taking sub-graphs, and what every query must then answer.               *)
(*                                                                         *)
(* A graph is the sequence of all nodes ever added (a node's number is its *)
(* place) and the set of those still in it.  Applications of one operator  *)
(* to the same operands and equal constants are one node.  Removing a node *)
(* removes its edges with it.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Functions, SequencesExt
CONSTANTS Random, MaxSteps, Names, Ops1, Ops2, Values, MaxGraphs, MaxNodes, Kinds, FinalOnly
VARIABLES G, h, n

vars == <<G, h, n>>
Ch(X) == IF Random THEN (IF X = {} THEN {} ELSE {RandomElement(X)}) ELSE X
New == [nodes |-> <<>>, live |-> {}, frozen |-> FALSE]
Init == G = <<New>> /\ h = <<>> /\ n = 0

(* ---- what follows from a graph's nodes *)
Node(g, i) == G[g].nodes[i]
Edges(x) == UNION {{<<i, j>> : j \in Range(x.nodes[i].ch) \cap x.live} : i \in x.live}
Users(x, j) == {i \in x.live : j \in Range(x.nodes[i].ch)}
Inputs(x) == {i \in x.live : x.nodes[i].k = "in"}
(* a node that nothing uses is a root, and so is one that is only read *)
Roots(x) == {i \in x.live : Users(x, i) = {} \/ \E r \in Users(x, i) : x.nodes[r].k = "read" /\ Users(x, i) = {r}}
RECURSIVE Below(_, _)
Below(x, S) == LET T == S \cup (UNION {Range(x.nodes[i].ch) : i \in S} \cap x.live) IN IF T = S THEN S ELSE Below(x, T)
ReadsOf(x, S) == {i \in x.live : x.nodes[i].k = "read" /\ Range(x.nodes[i].ch) \cap S # {}}
Snap(x) == [nodes |-> SetToSeq(x.live), edges |-> SetToSeq(Edges(x)), roots |-> SetToSeq(Roots(x)), ins |-> SetToSeq(Inputs(x)),
            dead |-> SetToSeq((1..Len(x.nodes)) \ x.live),
            names |-> [k \in 1..Len(SetToSeq(Inputs(x))) |-> x.nodes[SetToSeq(Inputs(x))[k]].nm]]
Snaps(gs) == [k \in 1..Len(gs) |-> Snap(gs[k])]

(* Every step may be followed by a round of queries to all graphs: they    *)
(* must answer right and change nothing.                                   *)
Do(e, gs) ==
  /\ n < MaxSteps /\ n' = n + 1 /\ G' = gs
  /\ \E q \in (IF n + 1 = MaxSteps THEN {TRUE} ELSE IF FinalOnly THEN {FALSE} ELSE Ch(BOOLEAN)) :
       h' = Append(h, IF q THEN e @@ [q |-> Snaps(gs)] ELSE e)
E(a, g, id) == [a |-> a, g |-> g, id |-> id]
Add(g, node) == [G EXCEPT ![g] = [@ EXCEPT !.nodes = Append(@, node), !.live = @ \cup {Len(G[g].nodes) + 1}]]
(* the node there is already, or the next number *)
Find(g, P(_)) == LET S == {i \in G[g].live : P(G[g].nodes[i])} IN IF S = {} THEN Len(G[g].nodes) + 1 ELSE CHOOSE i \in S : TRUE
Put(g, e, node, id) == Do(e, IF id > Len(G[g].nodes) THEN Add(g, node) ELSE G)

Room(g) == Len(G[g].nodes) < MaxNodes /\ ~G[g].frozen
Args(g) == {i \in G[g].live : G[g].nodes[i].k # "read"}
In(g) ==
  /\ Room(g)
  /\ \E nm \in Ch(Names) :  \* an input declared again is the same input
       LET id == Find(g, LAMBDA x : x.k = "in" /\ x.nm = nm)
       IN  Put(g, E("in", g, id) @@ [nm |-> nm], [k |-> "in", nm |-> nm, op |-> "", ch |-> <<>>], id)
Con(g) ==
  /\ Room(g)
  /\ \E v \in Ch(Values) :
       LET id == Find(g, LAMBDA x : x.k = "const" /\ x.op = v)
       IN  Put(g, E("const", g, id) @@ [v |-> v], [k |-> "const", nm |-> "", op |-> v, ch |-> <<>>], id)
Ap(g) ==
  /\ Room(g)
  /\ \E op \in Ch(Ops1 \cup Ops2) :
     \E a \in Ch(IF op \in Ops1 THEN {<<i>> : i \in Args(g)} ELSE Args(g) \X Args(g)) :
       LET id == Find(g, LAMBDA x : x.k = "op" /\ x.op = op /\ x.ch = a)
       IN  Put(g, E("op", g, id) @@ [op |-> op, ch |-> a], [k |-> "op", nm |-> "", op |-> op, ch |-> a], id)
Rd(g) ==
  /\ Room(g)
  /\ \E i \in Ch({j \in Args(g) : ReadsOf(G[g], {j}) = {}}) :
       LET id == Len(G[g].nodes) + 1
       IN  Put(g, E("read", g, id) @@ [ch |-> <<i>>], [k |-> "read", nm |-> "", op |-> "", ch |-> <<i>>], id)
(* Removing a node others use leaves applications without operands: nothing *)
(* is built on such a graph.                                               *)
Drop(g, i) == [G EXCEPT ![g] = [@ EXCEPT !.live = @ \ {i}, !.frozen = @ \/ Users(G[g], i) # {}]]
Rm(g) == \E i \in Ch(IF G[g].frozen THEN G[g].live ELSE {j \in G[g].live : Users(G[g], j) = {}}) : Do(E("rm", g, i), Drop(g, i))
RmInner(g) == \E i \in Ch({j \in G[g].live : Users(G[g], j) # {}}) : Do(E("rm", g, i), Drop(g, i))
(* removing what is not there changes nothing *)
RmGone(g) == \E i \in Ch((1..Len(G[g].nodes)) \ G[g].live) : Do(E("rmgone", g, i), G)
RmOther(g) == /\ Len(G) > 1
              /\ LET o == IF g = 1 THEN 2 ELSE 1 IN \E i \in Ch(G[o].live) : Do(E("rmother", g, i) @@ [o |-> o], G)
Cl(g) == /\ Len(G) < MaxGraphs /\ ~G[g].frozen
         /\ Do(E("clone", g, Len(G) + 1), Append(G, G[g]))
Sb(g) ==
  /\ ~G[g].frozen
  /\ \E how \in Ch({"roots", "exact", "one"}) :
     \E i, j \in Ch(Args(g)) :
       LET R == IF how = "one" THEN {i} ELSE {i, j}
           S == Below(G[g], R)
           N == IF how = "exact" THEN S ELSE S \cup ReadsOf(G[g], S)
       IN  Do(E("sub", g, 0) @@ [how |-> how, ch |-> SetToSeq(R), nodes |-> SetToSeq(N)], G)

Act(g, k) ==
  CASE k = "in" -> In(g) [] k = "const" -> Con(g) [] k = "op" -> Ap(g) [] k = "read" -> Rd(g)
    [] k = "rm" -> Rm(g) [] k = "inner" -> RmInner(g) [] k = "gone" -> RmGone(g) [] k = "other" -> RmOther(g)
    [] k = "clone" -> Cl(g) [] k = "sub" -> Sb(g)
Step == \E g \in Ch(1..Len(G)) : \E k \in Ch(1..Len(Kinds)) : Act(g, Kinds[k])
(* a random choice may be one that is not possible *)
Idle == Random /\ n < MaxSteps /\ UNCHANGED vars
End == n = MaxSteps /\ n' = n + 1 /\ PrintT("@@" \o ToJson(h)) /\ UNCHANGED <<G, h>>
Next == Step \/ Idle \/ End

(* of the specification *)
Acyclic == \A g \in 1..Len(G) : \A e \in Edges(G[g]) : e[2] < e[1]
OnceEach == \A g \in 1..Len(G) : \A i, j \in G[g].live : i # j /\ G[g].nodes[i].k = "op" => G[g].nodes[i] # G[g].nodes[j]
SubsetOk == \A g \in 1..Len(G) : Roots(G[g]) \subseteq G[g].live /\ Below(G[g], Roots(G[g])) = G[g].live
=============================================================================
