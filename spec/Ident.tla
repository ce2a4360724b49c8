------------------------------- MODULE Ident -------------------------------
(***************************************************************************)
(* Which expressions are one node.  A graph is filled with applications of *)
(* a group of operators to the same few operands: every operator, every    *)
(* choice and order of operands, every parameter.  Then everything is      *)
(* built again, which must give the same nodes, and the graph is run,      *)
(* which must give every application its own value.  Constants and inputs  *)
(* that differ in value, shape, element type or name are added likewise.   *)
(***************************************************************************)
EXTENDS Sweep

CONSTANTS OperandShapes,  \* set of tuples of shapes
          Groups,         \* set of sets of operators that share a graph
          Chunk,          \* at most so many applications in one graph
          WithConsts      \* TRUE: constants instead of applications

RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
RECURSIVE Ins(_, _, _)
Ins(z, q, j) == IF j > Len(q) THEN z
                ELSE Ins(PutIn(z, q[j], "pos", FixVals(NElem(q[j]), "pos", 3 * j), IF j = 1 THEN "with" ELSE "let"), q, j + 1)
Picks(op, k) == IF Arity(op) = 1 THEN {<<i>> : i \in 1..k} ELSE IF Arity(op) = 2 THEN (1..k) \X (1..k) ELSE (1..k) \X (1..k) \X (1..k)
Apps(ops, z) ==
  UNION {UNION {{<<op, a, p>> : p \in {r \in Params(op, [j \in 1..Len(a) |-> z.vals[a[j]]]) :
                                         /\ ~ExcludedIn(z, op, r, a)
                                         /\ TRUE = DomOk(op, [j \in 1..Len(a) |-> z.vals[a[j]]])
                                         /\ TRUE = SizeOk(Eval(op, r, [j \in 1..Len(a) |-> z.vals[a[j]]]))}}
                : a \in {b \in Picks(op, Len(z.prog)) : Legal(op, [j \in 1..Len(b) |-> z.vals[b[j]]])}} : op \in ops}
RECURSIVE PutAll(_, _)
PutAll(z, q) == IF q = <<>> THEN z ELSE PutAll(PutOp(z, Head(q)[1], Head(q)[3], Head(q)[2]), Tail(q))
(* the second time: in the reverse order *)
Again(z, from) ==
  LET one(i) == [a |-> "op", id |-> i, op |-> z.prog[i].op, p |-> z.prog[i].p, args |-> z.prog[i].a,
                 dt |-> IF IsBoolResult(z.prog[i].op, z.prog[i].p) THEN "bool" ELSE dt, sh |-> z.prog[i].s]
      n == Len(z.prog)
  IN  [z EXCEPT !.hist = @ \o [k \in 1..n - from |-> one(n + 1 - k)]]

(* constants: every shape and element type, contents that differ in one element *)
ConstList == LET shs == AnySeq(SweepShapes)
                 cases == {<<i, d, e, v>> : i \in 1..Len(shs), d \in Dtypes, e \in {0, 1, 2}, v \in {1, 2}}
                 ok == {c \in cases : (c[3] = 1 => NElem(shs[c[1]]) > 1) /\ (c[3] = 2 => NElem(shs[c[1]]) > 2)}
                 q == AnySeq(ok)
             IN  [k \in 1..Len(q) |-> [sh |-> shs[q[k][1]], dt |-> q[k][2],
                    v |-> [i \in 1..NElem(shs[q[k][1]]) |-> IF (i = 1 /\ q[k][3] = 1) \/ (i = 1 + NElem(shs[q[k][1]]) \div 2 /\ q[k][3] = 2) THEN 3 ELSE q[k][4]]]]
ConstHist(name) == LET q == ConstList
                 n == Len(q)
                 one(k) == [a |-> "const", id |-> k, dt |-> q[k].dt, sh |-> q[k].sh, v |-> q[k].v, str |-> name]
             IN  [k \in 1..n |-> one(k)] \o [k \in 1..n |-> one(n + 1 - k)]

Fill ==
  /\ ph = "sweep"
  /\ ~WithConsts
  /\ \E q \in OperandShapes : \E ops \in Groups :
     \E z0 \in {TLCEval(Ins(E0, q, 1))} :
     \E all \in {TLCEval(AnySeq(Apps(ops, z0)))} :
     \E c \in 0..((Len(all) - 1) \div Chunk) :
     \E z \in {TLCEval(Again(PutAll(z0, SubSeq(all, c * Chunk + 1, IF (c + 1) * Chunk < Len(all) THEN (c + 1) * Chunk ELSE Len(all))), Len(q)))} :
        prog' = z.prog /\ vals' = z.vals /\ env' = z.env /\ nvar' = z.nvar /\ hist' = z.hist
  /\ ph' = IF WithCost THEN "cost" ELSE "ask"
  /\ UNCHANGED <<dt, tries, svars>>
Consts1 ==
  /\ ph = "sweep" /\ WithConsts /\ ph' = "end"
  /\ \E name \in {"", "c"} : hist' = ConstHist(name)
  /\ PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, svars>>

(* operators whose parameters show in no value the specification knows      *)
(* (random, stateful, or numerically involved): other parameters, other     *)
(* nodes.  Those that keep no state are one node when built again.          *)
(* Parameters are thousandths.                                              *)
OpaqueIns == <<<<2, 3>>, <<2, 4, 2, 2>>, <<1, 4, 1, 1>>, <<2, 2, 3>>, <<2, 2>>, <<2>>, <<1, 12, 2, 2>>, <<3, 2>>>>
OpaqueList ==
     [k \in 1..4 |-> <<"Dropout", <<1>>, <<<<100>>, <<101>>, <<500>>, <<0>>>>[k]>>]
  \o [k \in 1..2 |-> <<"Dropout", <<2>>, <<<<100>>, <<500>>>>[k]>>]
  \o [k \in 1..5 |-> <<"BatchNorm", <<2, 3, 3>>, <<<<900, 1>>, <<910, 1>>, <<900, 2>>, <<910, 2>>, <<0, 1>>>>[k]>>]
  \o [k \in 1..6 |-> <<"GroupNorm", <<2, 3, 3>>, <<<<1, 1>>, <<2, 1>>, <<4, 1>>, <<1, 2>>, <<2, 2>>, <<1, 1000>>>>[k]>>]
  \o [k \in 1..2 |-> <<"Sparsemax", <<1>>, <<<<0>>, <<1>>>>[k]>>]
  \o [k \in 1..2 |-> <<"CTCLoss", <<4, 5, 6, 6>>, <<<<0>>, <<1>>>>[k]>>]
  \o [k \in 1..5 |-> <<"YOLO", <<7>>, <<<<8, 1, 500, 0>>, <<16, 1, 500, 0>>, <<8, 1, 600, 0>>, <<8, 1, 500, 1>>, <<8, 2, 500, 0>>>>[k]>>]
  \o [k \in 1..3 |-> <<"LeakyRelu", <<1>>, <<<<100>>, <<200>>, <<101>>>>[k]>>]
Keeps(op) == op \in {"Dropout", "BatchNorm"}
OpaqueHist(d) ==
  LET n == Len(OpaqueIns)
      q == OpaqueList
      m == Len(q)
      inp(k) == [a |-> "input", id |-> k, dt |-> IF k \in {5, 6} THEN "int" ELSE d, sh |-> OpaqueIns[k], v |-> [i \in 1..NElem(OpaqueIns[k]) |-> 1], how |-> "with"]
      one(k) == [a |-> "opaque", id |-> n + k, op |-> q[k][1], p |-> q[k][3], args |-> q[k][2]]
  IN  [k \in 1..n |-> inp(k)] \o [k \in 1..m |-> one(k)]
      \o SelectSeq([k \in 1..m |-> one(m + 1 - k)], LAMBDA e : ~Keeps(e.op))
Opaque ==
  /\ ph = "sweep" /\ WithConsts /\ ph' = "end"
  /\ hist' = OpaqueHist(dt)
  /\ PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<prog, vals, env, nvar, dt, tries, svars>>
INext == Fill \/ Consts1 \/ Opaque \/ Cost \/ Ask \/ NewVM \/ Run \/ Reset \/ Let
(* of the specification: what is one node has one value *)
OneValue == \A i, j \in 1..Len(prog) : i # j /\ prog[i].k = "op" /\ prog[j].k = "op" => <<prog[i].op, prog[i].p, prog[i].a>> # <<prog[j].op, prog[j].p, prog[j].a>>
=============================================================================
