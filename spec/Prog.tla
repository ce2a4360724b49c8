-------------------------------- MODULE Prog --------------------------------
(***************************************************************************)
(* Expression programs: the abstract state of an expression graph, and the *)
(* actions of a user that builds one.                                      *)
(*                                                                         *)
(*   prog  the nodes in creation order.  A node is an input, a constant or *)
(*         the application of an operator to earlier nodes.  Structurally  *)
(*         equal applications are the same node (hash consing).            *)
(*   env   the value bound to every input.                                 *)
(*   hist  the history of user-visible events: the trace to be replayed.   *)
(***************************************************************************)
EXTENDS Expr

CONSTANTS
  Random,      \* TRUE: one random choice per quantifier (simulation); FALSE: all of them
  Grads,       \* TRUE: carry derivatives
  OpBag,       \* sequence of operator names (a bag: repeated names are likelier)
  ShapeBag,    \* sequence of input shapes
  Dtypes,      \* set of dtypes
  Avoid,       \* names of patterns that are left out (see Excluded)
  BadBag,      \* operators that are also applied to operands that do not fit
  MaxIn, MaxConst, MaxOps, MaxTries

VARIABLES prog, vals, env, nvar, dt, tries, hist
pvars == <<prog, vals, env, nvar, dt, tries, hist>>

Ch(S) == IF Random THEN {RandomElement(S)} ELSE S
ChBag(q) == IF Random THEN {q[RandomElement(1..Len(q))]} ELSE {q[i] : i \in 1..Len(q)}

ValPool == {-3, -2, -1, 0, 1, 2, 3, 4}
PosPool == {1, 2, 3, 4}

Pool(gen) == CASE gen = "pos" -> PosPool
               [] gen = "any" -> ValPool
               [] gen = "neg" -> {-4, -3, -2, -1}
               [] gen = "exp" -> {-2, -1, 1, 2, 3}
               [] gen = "nexp" -> {2, 1, -1, -2, -3}
               [] gen = "ind" -> {0, 1}
RandVals(n, gen) == TLCEval([k \in 1..n |-> RandomElement(Pool(gen))])
(* deterministic data for exhaustive enumeration: small integers, distinct as far as possible *)
Modulus(n) == IF n <= 8 THEN 8 ELSE IF n <= 11 THEN 11 ELSE IF n <= 17 THEN 17 ELSE 37
FixVals(n, gen, salt) ==
  [k \in 1..n |->
     CASE gen = "pos" -> IF n <= 4 THEN ((k * 3 + salt) % 4) + 1 ELSE ((k * 5 + salt) % 7) + 1
       [] gen = "neg" -> IF n <= 4 THEN -1 - ((k * 3 + salt) % 4) ELSE -1 - ((k * 5 + salt) % 7)
       [] gen = "any" -> ((k * 5 + salt * 3) % Modulus(n)) - 3
       [] gen = "exp" -> <<3, -1, 2, 1, -2>>[((k + salt) % 5) + 1]
       [] gen = "nexp" -> <<-3, 1, -2, -1, 2>>[((k + salt) % 5) + 1]
       [] gen = "ind" -> (k * k + salt) % 2]
DataFor(n, gen, salt) == IF Random THEN {RandVals(n, gen)} ELSE {FixVals(n, gen, salt)}

InT(s, v, base) == [s |-> s, x |-> TLCEval([k \in 1..NElem(s) |-> IF Grads THEN V(v[k], base + k) ELSE C(v[k])])]

EvalNode(i, acc, e) ==
  LET n == prog[i] IN
  CASE n.k = "in"    -> InT(n.s, e[i], n.base)
    [] n.k = "const" -> [s |-> n.s, x |-> TLCEval([k \in 1..NElem(n.s) |-> C(n.v[k])])]
    [] n.k = "op"    -> Eval(n.op, n.p, [j \in 1..Len(n.a) |-> acc[n.a[j]]])
RECURSIVE EvalFrom(_, _, _)
EvalFrom(i, acc, e) == IF i > Len(prog) THEN acc
                       ELSE CHOOSE y \in {EvalFrom(i + 1, x, e) : x \in {Append(acc, EvalNode(i, acc, e))}} : TRUE
EvalAll(e) == EvalFrom(1, <<>>, e)
RECURSIVE DomFrom(_, _)
DomFrom(i, acc) ==
  \/ i > Len(prog)
  \/ /\ \/ prog[i].k # "op"
        \/ /\ DomOk(prog[i].op, [j \in 1..Len(prog[i].a) |-> acc[prog[i].a[j]]])
           /\ SizeOk(acc[i])
     /\ DomFrom(i + 1, acc)

Inputs == {i \in 1..Len(prog) : prog[i].k = "in"}
Consts == {i \in 1..Len(prog) : prog[i].k = "const"}
OpNodes == {i \in 1..Len(prog) : prog[i].k = "op"}
Usable == {i \in 1..Len(prog) : prog[i].k # "op" \/ (~IsBoolResult(prog[i].op, prog[i].p) /\ prog[i].op # "SizeOf")}
(* nodes whose value depends on input i *)
RECURSIVE DepFrom(_, _)
DepFrom(i, S) == IF i > Len(prog) THEN S
                 ELSE DepFrom(i + 1, IF prog[i].k = "op" /\ \E j \in 1..Len(prog[i].a) : prog[i].a[j] \in S
                                     THEN S \cup {i} ELSE S)
DependsOn(i) == DepFrom(i, {i})
InputsOf(c) == {i \in Inputs : c \in DependsOn(i)}

ProgInit ==
  /\ prog = <<>> /\ vals = <<>> /\ env = <<>> /\ nvar = 0 /\ tries = 0 /\ hist = <<>>
  /\ dt \in Dtypes

AddInput ==
  /\ Cardinality(Inputs) < MaxIn
  /\ \E s \in ChBag(ShapeBag), gen \in Ch({"any", "pos"}), how \in Ch({"with", "let"}) :
     \E v \in DataFor(NElem(s), gen, Len(prog)) :
       LET id == Len(prog) + 1
           n == [k |-> "in", s |-> s, gen |-> gen, base |-> nvar]
       IN  /\ prog' = Append(prog, n)
           /\ env' = Append(env, v)
           /\ vals' = Append(vals, InT(s, v, nvar))
           /\ nvar' = nvar + NElem(s)
           /\ hist' = Append(hist, [a |-> "input", id |-> id, dt |-> dt, sh |-> s, v |-> v, base |-> nvar, how |-> how])
           /\ UNCHANGED <<dt, tries>>

AddConst ==
  /\ Cardinality(Consts) < MaxConst
  /\ \E s \in ChBag(ShapeBag), gen \in Ch({"any", "pos"}) :
     \E v \in DataFor(NElem(s), gen, Len(prog) + 7) :
       LET id == Len(prog) + 1
           n == [k |-> "const", s |-> s, v |-> v, gen |-> gen]
       IN  /\ ~\E i \in Consts : prog[i].s = s /\ prog[i].v = v
           /\ prog' = Append(prog, n)
           /\ env' = Append(env, <<>>)
           /\ vals' = Append(vals, [s |-> s, x |-> TLCEval([k \in 1..NElem(s) |-> C(v[k])])])
           /\ hist' = Append(hist, [a |-> "const", id |-> id, dt |-> dt, sh |-> s, v |-> v])
           /\ UNCHANGED <<dt, nvar, tries>>

(* operand tuples for op that have node i as first or second operand *)
ArgsWith(op, i) ==
  IF Arity(op) = 1 THEN (IF Legal(op, <<vals[i]>>) THEN {<<i>>} ELSE {})
  ELSE IF Arity(op) = 3
  THEN {q \in {<<i, j, k>> : j, k \in Usable} \cup {<<j, i, k>> : j, k \in Usable} \cup {<<j, k, i>> : j, k \in Usable} :
          Legal(op, [m \in 1..3 |-> vals[q[m]]])}
  ELSE {q \in {<<i, j>> : j \in Usable} \cup {<<j, i>> : j \in Usable} :
          Legal(op, <<vals[q[1]], vals[q[2]]>>)}

Same(op, p, a) == {i \in OpNodes : prog[i].op = op /\ prog[i].p = p /\ prog[i].a = a}

(***************************************************************************)
(* Patterns left out of generation.                                        *)
(*   rewrites  applications the library replaces by an equivalent one when *)
(*             they are built.  The operand stays behind as an unused root *)
(*             of the graph, which the machine that differentiates by      *)
(*             itself would take for a second cost.                        *)
(*   others    known findings, see known-findings.txt                      *)
(***************************************************************************)
OpOf(i) == IF prog[i].k = "op" THEN prog[i].op ELSE prog[i].k
Rewritten(op, a) ==
  \/ op = "Neg" /\ OpOf(a[1]) = "Neg"
  \/ op = "Log" /\ OpOf(a[1]) \in {"Sigmoid", "SoftMax", "Add", "Sub"}
  \/ op = "Log1p" /\ OpOf(a[1]) \in {"Exp", "Neg"}
  \/ op = "Sub" /\ OpOf(a[2]) = "Sigmoid"
  \/ op \in {"Sub", "Add"} /\ "const" \in {OpOf(a[1]), OpOf(a[2])}
Repeats(q) == \E i, j \in 1..Len(q) : i # j /\ q[i] = q[j]
KnownBad(op, p, t1, t2) ==
  \/ "scalar-between" \in Avoid /\ op \in {"MinBetween", "MaxBetween"} /\ IsScalar(t1)
  \/ "rank4" \in Avoid /\ op = "Tensordot" /\ (Len(t1.s) > 3 \/ Len(t2.s) > 3)
  \/ "tensordot-whole" \in Avoid /\ op = "Tensordot" /\ (Len(p[1]) = Len(t1.s) \/ Len(p[2]) = Len(t2.s))
  \/ "byindices-repeat" \in Avoid /\ op = "ByIndices" /\ Repeats(p[2])
                                     /\ ~(Len(t1.s) = 2 /\ p[1] = <<0>> /\ t1.s[2] > 1)
  \/ "scalar-mix" \in Avoid /\ Arity(op) = 2 /\ IsScalar(t1) # IsScalar(t2)
  \/ "sparsemax-rank3" \in Avoid /\ op = "Sparsemax" /\ Len(t1.s) > 2
Excluded(op, p, a) ==
  \/ "rewrites" \in Avoid /\ Rewritten(op, a)
  \/ "rewrites" \in Avoid /\ (op = "XentSigmoid" \/ (op = "Unconcat" /\ p[2] > 1))
  \/ "log-softmax" \in Avoid /\ op = "Log" /\ \/ OpOf(a[1]) = "SoftMax"
                                              \/ OpOf(a[1]) = "HadamardProd" /\ \E i \in {1, 2} : OpOf(prog[a[1]].a[i]) = "SoftMax"
  \/ KnownBad(op, p, vals[a[1]], vals[a[Len(a)]])

ApplyOp(op, p, a) ==
  \E ts \in {TLCEval([j \in 1..Len(a) |-> vals[a[j]]])} :
      /\ TRUE = DomOk(op, ts)
      /\ \E r \in {TLCEval(Eval(op, p, ts))} :
           LET id == Len(prog) + 1
               old == Same(op, p, a)
               rdt == IF IsBoolResult(op, p) THEN "bool" ELSE dt
               rid == IF old = {} THEN id ELSE CHOOSE x \in old : TRUE
           IN  /\ TRUE = SizeOk(r)
               /\ hist' = Append(hist, [a |-> "op", id |-> rid, op |-> op, p |-> p, args |-> a, dt |-> rdt,
                                        sh |-> r.s])
               /\ IF old = {}
                  THEN /\ prog' = Append(prog, [k |-> "op", op |-> op, p |-> p, a |-> a, s |-> r.s])
                       /\ vals' = Append(vals, r)
                       /\ env' = Append(env, <<>>)
                  ELSE UNCHANGED <<prog, vals, env>>
               /\ UNCHANGED <<dt, nvar, tries>>

AddOp ==
  /\ Usable # {}
  /\ Cardinality(OpNodes) < MaxOps
  /\ \E op \in ChBag(OpBag), i \in Ch(Usable) :
     \E As \in {TLCEval(ArgsWith(op, i))} :
         /\ As # {}
         /\ \E a \in Ch(As) :
            \E ts \in {TLCEval([j \in 1..Len(a) |-> vals[a[j]]])} :
            \E P \in {TLCEval(Params(op, ts))} :
                /\ P # {}
                /\ \E p \in Ch(P) : ~Excluded(op, p, a) /\ ApplyOp(op, p, a)

Try == /\ tries < MaxTries
       /\ tries' = tries + 1
       /\ UNCHANGED <<prog, vals, env, nvar, dt, hist>>

(* an application that must be refused and leave everything as it was *)
BadOp ==
  /\ Len(BadBag) > 0 /\ tries < MaxTries
  /\ \E op \in ChBag(BadBag), i \in Ch(Usable), j \in Ch(Usable) :
     LET a == IF Arity(op) = 1 THEN <<i>> ELSE IF Arity(op) = 3 THEN <<i, j, i>> ELSE <<i, j>>
         P == IllParams(op, [k \in 1..Len(a) |-> vals[a[k]]])
     IN  /\ P # {}
         /\ \E p \in Ch(P) :
            hist' = Append(hist, [a |-> "op", id |-> a[1], op |-> op, p |-> p, args |-> a, err |-> TRUE])
  /\ tries' = tries + 1
  /\ UNCHANGED <<prog, vals, env, nvar, dt>>

(* likewise, operands of different data types *)
OtherDt == IF dt = "f32" THEN "f64" ELSE "f32"
BadMix ==
  /\ Len(BadBag) > 0 /\ tries < MaxTries
  /\ \E op \in Ch({"Add", "Sub", "HadamardProd", "HadamardDiv", "Pow", "Lt", "Eq", "Mul", "Concat", "OuterProd", "BatchedMatMul"}),
       i \in Ch(Usable), left \in Ch(BOOLEAN) :
     \E Ps \in {Params(op, <<vals[i], vals[i]>>)} :
     LET id == 500 + tries
     IN  /\ Legal(op, <<vals[i], vals[i]>>)
         /\ Ps # {}
         /\ \E p \in Ch(Ps) :
              hist' = hist \o <<[a |-> "input", id |-> id, dt |-> OtherDt, sh |-> vals[i].s,
                                v |-> [k \in 1..NElem(vals[i].s) |-> 1], base |-> 0, how |-> "with"],
                               [a |-> "op", id |-> i, op |-> op, p |-> p,
                                args |-> IF left THEN <<id, i>> ELSE <<i, id>>, err |-> TRUE]>>
  /\ tries' = tries + 1
  /\ UNCHANGED <<prog, vals, env, nvar, dt>>

=============================================================================
