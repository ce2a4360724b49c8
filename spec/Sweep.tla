------------------------------- MODULE Sweep -------------------------------
(***************************************************************************)
(* Every application of one operator within the bounds: all operators of a *)
(* set, all fitting operand shapes of a set, all parameters, all data      *)
(* types and all contexts.  One behaviour of the user session per case,    *)
(* continued as in Sess.                                                   *)
(*                                                                         *)
(* A context says what the operands are:                                   *)
(*   plain  inputs                                                         *)
(*   mid    results of other operators, which may be overwritten           *)
(*   keep   the same, but they are needed again afterwards                 *)
(*   same   one node is both operands                                      *)
(*   const  the last operand is a constant                                 *)
(***************************************************************************)
EXTENDS Sess

CONSTANTS SweepOps, SweepShapes, Ctxs

E0 == [prog |-> <<>>, vals |-> <<>>, env |-> <<>>, nvar |-> 0, hist |-> <<>>]
PutIn(y, s, gen, v, how) == Bind(y, LAMBDA z :
  LET id == Len(z.prog) + 1
  IN  [prog |-> Append(z.prog, [k |-> "in", s |-> s, gen |-> gen, base |-> z.nvar]),
       vals |-> Append(z.vals, InT(s, v, z.nvar)),
       env  |-> Append(z.env, v),
       nvar |-> z.nvar + NElem(s),
       hist |-> Append(z.hist, [a |-> "input", id |-> id, dt |-> dt, sh |-> s, v |-> v, base |-> z.nvar, how |-> how])])
PutConst(y, s, gen, v) == Bind(y, LAMBDA z :
  LET id == Len(z.prog) + 1
  IN  [prog |-> Append(z.prog, [k |-> "const", s |-> s, v |-> v, gen |-> gen]),
       vals |-> Append(z.vals, [s |-> s, x |-> TLCEval([k \in 1..NElem(s) |-> C(v[k])])]),
       env  |-> Append(z.env, <<>>),
       nvar |-> z.nvar,
       hist |-> Append(z.hist, [a |-> "const", id |-> id, dt |-> dt, sh |-> s, v |-> v])])
PutOp(y, op, p, a) ==
  Bind(y, LAMBDA z :
  LET id == Len(z.prog) + 1
      old == {i \in 1..Len(z.prog) : z.prog[i].k = "op" /\ z.prog[i].op = op /\ z.prog[i].p = p /\ z.prog[i].a = a}
  IN  IF old # {} THEN z ELSE
      Bind(TLCEval([j \in 1..Len(a) |-> z.vals[a[j]]]), LAMBDA ts : Bind(Eval(op, p, ts), LAMBDA r :
      [prog |-> Append(z.prog, [k |-> "op", op |-> op, p |-> p, a |-> a, s |-> r.s]),
       vals |-> Append(z.vals, r),
       env  |-> Append(z.env, <<>>),
       nvar |-> z.nvar,
       hist |-> Append(z.hist, [a |-> "op", id |-> id, op |-> op, p |-> p, args |-> a,
                                dt |-> IF IsBoolResult(op, p) THEN "bool" ELSE dt, sh |-> r.s])])))

Shp(s) == [s |-> s, x |-> <<>>]
Tuples(n) == IF n = 1 THEN {<<s>> : s \in SweepShapes}
             ELSE IF n = 2 THEN {<<s, u>> : s, u \in SweepShapes}
             ELSE {<<s, u, w>> : s, u, w \in SweepShapes}
Fitting(op) == {q \in Tuples(Arity(op)) : Legal(op, [i \in 1..Len(q) |-> Shp(q[i])])}

(* which data suits operand j of op *)
Gen(op, j) ==
  CASE op \in {"Log", "Log2", "Sqrt", "InverseSqrt", "Log1p"} -> "pos"
    [] op \in {"Inverse", "Norm"} -> "pos"
    [] op \in {"HadamardDiv", "BroadcastHadamardDiv", "Div", "AutoHadamardDiv"} -> IF j = 2 THEN "pos" ELSE "any"
    [] op \in {"Pow", "BroadcastPow"} -> IF j = 2 THEN "exp" ELSE "pos"
    [] op = "XentSigmoid" -> IF j = 2 THEN "ind" ELSE "any"
    [] OTHER -> "any"
Negated(g) == CASE g = "pos" -> "neg" [] g = "exp" -> "nexp" [] OTHER -> g

RECURSIVE Operands(_, _, _, _, _)
(* the operands as inputs, or as negated inputs *)
Operands(z, op, q, ctx, j) ==
  IF j > Len(q) THEN z
  ELSE
  LET mid == ctx \in {"mid", "keep"}
           g == IF mid THEN Negated(Gen(op, j)) ELSE Gen(op, j)
           v == FixVals(NElem(q[j]), g, j)
           z1 == IF ctx = "const" /\ j = Len(q) THEN PutConst(z, q[j], g, v)
                 ELSE PutIn(z, q[j], g, v, IF j = 1 THEN "with" ELSE "let")
       IN  CHOOSE r \in {Operands(y, op, q, ctx, j + 1) : y \in {Bind(z1, LAMBDA x : IF mid THEN PutOp(x, "Neg", <<>>, <<Len(x.prog)>>) ELSE x)}} : TRUE
ArgIds(n, ctx) == [j \in 1..n |-> IF ctx \in {"mid", "keep"} THEN 2 * j ELSE IF ctx = "same" THEN 1 ELSE j]

(* weigh the result, so that its derivative differs from element to element *)
Weighed(y) == Bind(y, LAMBDA z :
  LET s == z.vals[Len(z.prog)].s
      r == Len(z.prog)
      z1 == PutIn(z, s, "any", FixVals(NElem(s), "any", 5), "with")
  IN  PutOp(z1, "HadamardProd", <<>>, <<r, Len(z.prog) + 1>>))
Kept(z, n) == \* use the operands once more
      IF n = 1 THEN PutOp(z, "Square", <<>>, <<2>>)
      ELSE IF n = 2 THEN PutOp(PutOp(z, "Square", <<>>, <<2>>), "Square", <<>>, <<4>>)
      ELSE PutOp(PutOp(PutOp(z, "Square", <<>>, <<2>>), "Square", <<>>, <<4>>), "Square", <<>>, <<6>>)

Case(op, q, ctx, p) ==
  LET n == IF ctx = "same" THEN 1 ELSE Arity(op)
      z0 == Operands(E0, op, IF ctx = "same" THEN <<q[1]>> ELSE q, ctx, 1)
      a == ArgIds(Arity(op), ctx)
      z1 == PutOp(z0, op, p, a)
      z2 == IF GradMode = "none" \/ IsBoolResult(op, p) THEN z1 ELSE Weighed(z1)
  IN  Bind(z2, LAMBDA z : IF ctx = "keep" THEN Kept(z, n) ELSE z)

CtxOk(op, q, ctx) == /\ ctx = "same" => (Arity(op) = 2 /\ q[1] = q[2] /\ Gen(op, 1) = Gen(op, 2))
                     /\ ctx = "const" => Arity(op) = 2

SInit == /\ prog = <<>> /\ vals = <<>> /\ env = <<>> /\ nvar = 0 /\ tries = 0 /\ hist = <<>>
         /\ \E d \in Dtypes : dt = d
         /\ ph = "sweep" /\ mach = <<>> /\ reads = {} /\ wrt = {} /\ cost = 0 /\ runs = 0

(* the patterns left out are stated on the program being built *)
ExcludedIn(z, op, p, a) ==
  LET t1 == z.vals[a[1]]  t2 == z.vals[a[Len(a)]]
      of(i) == IF z.prog[i].k = "op" THEN z.prog[i].op ELSE z.prog[i].k
  IN  \/ "rewrites" \in Avoid /\ \/ op \in {"Neg", "Log1p"} /\ of(a[1]) = "Neg"
                                 \/ op \in {"Sub", "Add"} /\ "const" \in {of(a[1]), of(a[2])}
                                 \/ op = "XentSigmoid"
                                 \/ op = "Unconcat" /\ p[2] > 1
      \/ KnownBad(op, p, t1, t2)

Build ==
  /\ ph = "sweep"
  /\ \E op \in SweepOps : \E q \in Fitting(op) : \E ctx \in Ctxs :
       /\ CtxOk(op, q, ctx)
       /\ \E p \in Params(op, [i \in 1..Len(q) |-> Shp(q[i])]) :
          \E z \in {TLCEval(Case(op, q, ctx, p))} :
            LET a == ArgIds(Arity(op), ctx)
                ts == [j \in 1..Len(a) |-> z.vals[a[j]]]
            IN  /\ TRUE = DomOk(op, ts)
                /\ GradMode = "none" \/ ~IsBoolResult(op, p)
                /\ \A i \in 1..Len(z.prog) : TRUE = SizeOk(z.vals[i])
                /\ ~ExcludedIn(z, op, p, a)
                /\ prog' = z.prog /\ vals' = z.vals /\ env' = z.env /\ nvar' = z.nvar /\ hist' = z.hist
  /\ ph' = IF WithCost THEN "cost" ELSE "ask"
  /\ UNCHANGED <<dt, tries, svars>>

SNext == Build \/ Cost \/ Ask \/ NewVM \/ Run \/ Reset \/ Let
=============================================================================
