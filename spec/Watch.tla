-------------------------------- MODULE Watch -------------------------------
(***************************************************************************)
(* Watching for NaNs and infinities.  Elements are abstract floating point *)
(* numbers:                                                                *)
(*   <<"z">>        zero (of either sign)                                  *)
(*   <<"f", s, m>>  finite, of sign s, magnitude between 2^-m and 2^m      *)
(*   <<"u", m>>     finite, possibly zero, magnitude at most 2^m           *)
(*   <<"b", s>>     of sign s, magnitude between 1000 and 4000             *)
(*   <<"i", s>>     an infinity of sign s (0: of either sign)              *)
(*   <<"n">>        NaN                                                    *)
(*   <<"?">>        anything                                               *)
(* An application with a result of the last kind is left out.  A run with  *)
(* the watch for NaNs (infinities) must fail exactly if the application of *)
(* an operator has a NaN (an infinity) among its results.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,      \* machines: set of "tape", "lisp"
          Watches,    \* set of sequences of options
          Shapes, Dts, MaxIn, MaxOps, MaxRuns, Mode  \* "fwd", or "sqrt", "prod" (derivatives)
VARIABLES prog, vals, ph, n, runs, tries, mach, hist
vars == <<prog, vals, ph, n, runs, tries, mach, hist>>
Pick(S) == {RandomElement(S)}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

Z == <<"z">>
N == <<"n">>
Q == <<"?">>
F(s, m) == IF m > 60 THEN Q ELSE <<"f", s, m>>
U(m) == IF m > 60 THEN Q ELSE <<"u", m>>
Inf(s) == <<"i", s>>
IsF(x) == x[1] \in {"f", "b"}
Sg(x) == x[2]
Mg(x) == IF x[1] = "b" THEN 12 ELSE IF x[1] = "f" THEN x[3] ELSE IF x[1] = "u" THEN x[2] ELSE 0
Fin(x) == x[1] \in {"z", "f", "u", "b"}
Max2(a, b) == IF a > b THEN a ELSE b

eNeg(x) == IF IsF(x) THEN (IF x[1] = "b" THEN <<"b", -x[2]>> ELSE <<"f", -x[2], x[3]>>) ELSE IF x[1] = "i" THEN Inf(-x[2]) ELSE x
eAbs(x) == IF IsF(x) THEN F(1, Mg(x)) ELSE IF x[1] = "i" THEN Inf(1) ELSE x
eAdd(x, y) ==
  IF x = Q \/ y = Q THEN Q
  ELSE IF x = N \/ y = N THEN N
  ELSE IF x[1] = "i" /\ y[1] = "i" THEN (IF x[2] = 0 \/ y[2] = 0 THEN Q ELSE IF x[2] = y[2] THEN x ELSE N)
  ELSE IF x[1] = "i" THEN x ELSE IF y[1] = "i" THEN y
  ELSE IF x = Z THEN y ELSE IF y = Z THEN x
  ELSE IF IsF(x) /\ IsF(y) /\ Sg(x) = Sg(y) THEN F(Sg(x), Max2(Mg(x), Mg(y)) + 1)
  ELSE U(Max2(Mg(x), Mg(y)) + 1)
eMul(x, y) ==
  IF x = Q \/ y = Q THEN Q
  ELSE IF x = N \/ y = N THEN N
  ELSE IF x[1] = "i" /\ y[1] = "i" THEN Inf(x[2] * y[2])
  ELSE IF x[1] = "i" THEN (IF y = Z THEN N ELSE IF IsF(y) THEN Inf(x[2] * Sg(y)) ELSE Q)
  ELSE IF y[1] = "i" THEN (IF x = Z THEN N ELSE IF IsF(x) THEN Inf(y[2] * Sg(x)) ELSE Q)
  ELSE IF x = Z \/ y = Z THEN Z
  ELSE IF IsF(x) /\ IsF(y) THEN F(Sg(x) * Sg(y), Mg(x) + Mg(y))
  ELSE U(Mg(x) + Mg(y))
eInv(x) == CASE x = Z -> Inf(0)
             [] IsF(x) -> F(Sg(x), Mg(x))
             [] x[1] = "i" -> Z
             [] x = N -> N
             [] OTHER -> Q
eDiv(x, y) ==
  IF x = Q \/ y = Q THEN Q
  ELSE IF y = Z THEN (IF IsF(x) \/ x[1] = "i" THEN Inf(0) ELSE Q)  \* 0/0 and NaN/0 depend on the vector library
  ELSE IF x = N \/ y = N THEN N
  ELSE IF y[1] = "i" THEN (IF x[1] = "i" THEN N ELSE Z)
  ELSE IF IsF(y) THEN (IF x[1] = "i" THEN Inf(x[2] * Sg(y)) ELSE eMul(x, eInv(y)))
  ELSE Q
eUn(op, x) ==
  CASE op = "Neg" -> eNeg(x)
    [] op = "Abs" -> eAbs(x)
    [] op = "Square" -> IF x[1] = "i" THEN Inf(1) ELSE eMul(x, x)
    [] op = "Sqrt" -> CASE x \in {Z, N} -> x
                        [] IsF(x) -> IF Sg(x) > 0 THEN F(1, Mg(x)) ELSE N
                        [] x = Inf(1) -> x
                        [] x = Inf(-1) -> N
                        [] OTHER -> Q
    [] op = "Log" -> CASE x = Z -> Inf(-1)
                       [] x = N -> N
                       [] IsF(x) -> IF Sg(x) > 0 THEN U(6) ELSE N
                       [] x = Inf(1) -> x
                       [] x = Inf(-1) -> N
                       [] OTHER -> Q
    [] op = "Exp" -> CASE x = Z -> F(1, 0)
                       [] x = N -> N
                       [] x[1] = "b" -> IF x[2] > 0 THEN Inf(1) ELSE Z
                       [] x[1] \in {"f", "u"} -> IF Mg(x) <= 4 THEN F(1, 24) ELSE Q
                       [] x = Inf(1) -> x
                       [] x = Inf(-1) -> Z
                       [] OTHER -> Q
    [] op = "Inverse" -> eInv(x)
    [] op = "Tanh" -> CASE x \in {Z, N} -> x
                        [] x[1] = "b" -> F(x[2], 1)
                        [] x[1] = "i" /\ x[2] # 0 -> F(x[2], 1)
                        [] x[1] = "f" /\ Mg(x) <= 20 -> F(Sg(x), Mg(x) + 1)
                        [] Fin(x) -> U(0)
                        [] OTHER -> Q
    [] op = "Sigmoid" -> CASE x = N -> N
                           [] Fin(x) -> IF x = Z \/ (x[1] \in {"f", "u"} /\ Mg(x) <= 4) THEN F(1, 26) ELSE U(0)
                           [] x = Inf(1) -> F(1, 1)
                           [] x = Inf(-1) -> U(0)
                           [] OTHER -> Q
eBin(op, x, y) == CASE op = "Add" -> eAdd(x, y)
                    [] op = "Sub" -> eAdd(x, eNeg(y))
                    [] op = "HadamardProd" -> eMul(x, y)
                    [] op = "HadamardDiv" -> eDiv(x, y)
                    [] op \in {"Gt", "Lt", "Lte", "Gte", "Eq", "Ne"} -> IF Q \in {x, y} THEN Q ELSE U(0)
Uns == {"Neg", "Abs", "Square", "Sqrt", "Log", "Exp", "Inverse", "Tanh", "Sigmoid"}
Bins == {"Add", "Sub", "HadamardProd", "HadamardDiv"}
Cmps == {"Gt", "Lt", "Eq", "Ne"}

(* tensors: [s, x], row major *)
T(s, x) == [s |-> s, x |-> x]
RECURSIVE SumFrom(_, _)
SumFrom(q, k) == IF k > Len(q) THEN Z ELSE eAdd(q[k], SumFrom(q, k + 1))
SumAll(t) == T(<<>>, <<SumFrom(t.x, 1)>>)
SumAx(t, ax) == \* of a matrix
  LET r == t.s[1]  c == t.s[2] IN
  IF ax = 0 THEN T(<<c>>, [j \in 1..c |-> SumFrom([i \in 1..r |-> t.x[(i - 1) * c + j]], 1)])
  ELSE T(<<r>>, [i \in 1..r |-> SumFrom([j \in 1..c |-> t.x[(i - 1) * c + j]], 1)])
RowOf(t, i) == T(<<t.s[2]>>, [j \in 1..t.s[2] |-> t.x[i * t.s[2] + j]])
Trans(t) == LET r == t.s[1]  c == t.s[2] IN T(<<c, r>>, [k \in 1..r * c |-> t.x[((k - 1) % r) * c + ((k - 1) \div r) + 1]])

Usable == {i \in 1..Len(prog) : ~prog[i].bool}
Decided(t) == \A k \in 1..Len(t.x) : t.x[k] # Q
HasN(t) == \E k \in 1..Len(t.x) : t.x[k] = N
HasI(t) == \E k \in 1..Len(t.x) : t.x[k][1] = "i"

(* an input element, as it is written in the history, and what it stands for *)
RandEl(wild) == IF RandomElement(1..10) <= wild
                THEN RandomElement({"nan", "inf", "-inf", "0", "2000", "-2000"})
                ELSE RandomElement({"1", "2", "3", "-1", "-2"})
Num(e) == CASE e = "0" -> 0 [] e = "2000" -> 2000 [] e = "-2000" -> -2000 [] e = "1" -> 1 [] e = "2" -> 2 [] e = "3" -> 3
            [] e = "-1" -> -1 [] e = "-2" -> -2
AbstS(e) == IF e \in {"nan", "inf", "-inf"} THEN (CASE e = "nan" -> N [] e = "inf" -> Inf(1) [] OTHER -> Inf(-1))
            ELSE LET k == Num(e) IN
                 IF k = 0 THEN Z ELSE IF k > 100 THEN <<"b", 1>> ELSE IF k < -100 THEN <<"b", -1>>
                 ELSE F(IF k > 0 THEN 1 ELSE -1, 2)
Enc(e) == IF e \in {"nan", "inf", "-inf"} THEN <<e, 1>> ELSE <<Num(e)>>
RandVec(k) == LET w == RandomElement({0, 0, 1, 3}) IN TLCEval([i \in 1..k |-> RandEl(w)])
NonNeg(k) == TLCEval([i \in 1..k |-> RandomElement({"0", "1", "2", "3", "1"})])

Init == /\ prog = <<>> /\ vals = <<>> /\ ph = "in" /\ n = 0 /\ runs = 0 /\ tries = 0 /\ hist = <<>>
        /\ \E d \in Dts, k \in Kinds, w \in Watches : mach = [dt |-> d, kind |-> k, opts |-> w]

AddIn ==
  /\ ph = "in" /\ n < MaxIn
  /\ \E s \in Pick(Shapes) : \E v \in {RandVec(Prod(s))} :
       /\ prog' = Append(prog, [k |-> "in", s |-> s, bool |-> FALSE])
       /\ vals' = Append(vals, T(s, [i \in 1..Len(v) |-> AbstS(v[i])]))
       /\ hist' = Append(hist, [a |-> "input", id |-> n + 1, dt |-> mach.dt, sh |-> s, v |-> [i \in 1..Len(v) |-> Enc(v[i])], base |-> 0, how |-> "let"])
       /\ n' = n + 1
  /\ UNCHANGED <<ph, runs, tries, mach>>
EndIn == ph = "in" /\ n > 0 /\ ph' = "op" /\ UNCHANGED <<prog, vals, n, runs, tries, mach, hist>>

App(op, p, x, y) ==
  CASE op \in Uns -> T(x.s, [k \in 1..Len(x.x) |-> eUn(op, x.x[k])])
    [] op \in Bins \cup Cmps ->
         LET s == IF x.s = <<>> THEN y.s ELSE x.s
         IN  T(s, [k \in 1..Prod(s) |-> eBin(op, x.x[IF x.s = <<>> THEN 1 ELSE k], y.x[IF y.s = <<>> THEN 1 ELSE k])])
    [] op = "Sum" -> IF p = <<>> THEN SumAll(x) ELSE SumAx(x, p[1])
    [] op = "Slice" -> IF Len(x.s) = 2 THEN RowOf(x, p[1][1])
                       ELSE T(<<p[1][2] - p[1][1]>>, [k \in 1..(p[1][2] - p[1][1]) |-> x.x[p[1][1] + k]])
    [] op = "Reshape" -> T(p, x.x)
    [] op = "Transpose" -> Trans(x)
    [] op = "Concat" -> T(<<x.s[1] + y.s[1]>> \o Tail(x.s), x.x \o y.x)
EvalN(i, acc) == LET e == prog[i] IN IF e.k = "in" THEN acc[i] ELSE App(e.op, e.p, acc[e.a[1]], acc[e.a[Len(e.a)]])

(* the applications of op with node i as an operand: <<params, operands, shape>> *)
AppOf(op, i) ==
  LET x == vals[i] IN
  CASE op \in Uns -> {<<<<>>, <<i>>>>}
    [] op \in Bins -> {<<<<>>, q>> : q \in {<<i, j>> : j \in {j \in Usable : vals[j].s = x.s \/ vals[j].s = <<>> \/ x.s = <<>>}}
                                        \cup {<<j, i>> : j \in {j \in Usable : vals[j].s = x.s \/ vals[j].s = <<>> \/ x.s = <<>>}}}
    [] op \in Cmps -> {<<<<b>>, <<i, j>>>> : b \in BOOLEAN, j \in {j \in Usable : vals[j].s = x.s}}
    [] op = "Sum" -> IF x.s = <<>> THEN {} ELSE {<<<<>>, <<i>>>>} \cup (IF Len(x.s) = 2 THEN {<<<<ax>>, <<i>>>> : ax \in {0, 1}} ELSE {})
    [] op = "Slice" -> IF Len(x.s) = 2 /\ x.s[2] > 1 THEN {<<<<<<k, k + 1, 1>>>>, <<i>>>> : k \in 0..x.s[1] - 1}
                       ELSE IF Len(x.s) = 1 THEN {<<<<<<k, l, 1>>>>, <<i>>>> : <<k, l>> \in {q \in (0..x.s[1]) \X (0..x.s[1]) : q[2] - q[1] > 1}}
                       ELSE {}
    [] op = "Reshape" -> IF Len(x.s) = 2 /\ x.s[1] # x.s[2] /\ x.s[1] > 1 /\ x.s[2] > 1 THEN {<<<<x.s[2], x.s[1]>>, <<i>>>>} ELSE {}
    [] op = "Transpose" -> IF Len(x.s) = 2 THEN {<<<<>>, <<i>>>>} ELSE {}
    [] op = "Concat" -> IF x.s # <<>> THEN {<<<<0>>, <<i, j>>>> : j \in {j \in Usable : vals[j].s = x.s}} ELSE {}
Ops == Uns \cup Bins \cup Cmps \cup {"Sum", "Slice", "Reshape", "Transpose", "Concat"}
(* library rewrites that do away with an application *)
Odd(op, a) == \/ op = "Neg" /\ prog[a[1]].k = "op" /\ prog[a[1]].op = "Neg"
              \/ op = "Log" /\ prog[a[1]].k = "op"
              \/ op \in {"Sub", "Add"} /\ \E i \in 1..Len(a) : prog[a[i]].k = "op" /\ prog[a[i]].op \in {"Sigmoid", "Log", "Exp"}
Known(op, p, a) == \E i \in 1..Len(prog) : prog[i].k = "op" /\ prog[i].op = op /\ prog[i].p = p /\ prog[i].a = a
Grow(op, p, a) ==
  LET e == [k |-> "op", op |-> op, p |-> p, a |-> a, bool |-> op \in Cmps /\ p = <<FALSE>>]
      t == App(op, p, vals[a[1]], vals[a[Len(a)]])
  IN  IF Decided(t) /\ Len(t.x) > 0 /\ ~Known(op, p, a) /\ ~Odd(op, a)
      THEN /\ prog' = Append(prog, e) /\ vals' = Append(vals, t)
           /\ n' = n + 1
           /\ hist' = Append(hist, [a |-> "op", id |-> n + 1, op |-> op, p |-> p, args |-> a, dt |-> IF e.bool THEN "bool" ELSE mach.dt, sh |-> t.s])
      ELSE UNCHANGED <<prog, vals, n, hist>>
AddOp ==
  /\ ph = "op" /\ tries < 40
  /\ tries' = tries + 1
  /\ IF Cardinality({i \in 1..Len(prog) : prog[i].k = "op"}) >= MaxOps THEN UNCHANGED <<prog, vals, n, hist>>
     ELSE \E op \in Pick(Ops), i \in Pick(Usable) :
          LET A == AppOf(op, i) IN
          IF A = {} THEN UNCHANGED <<prog, vals, n, hist>>
          ELSE \E c \in Pick(A) : Grow(op, c[1], c[2])
  /\ UNCHANGED <<ph, runs, mach>>
Vm ==
  /\ ph = "op" /\ tries = 40
  /\ ph' = "run"
  /\ hist' = hist \o <<[a |-> "vm", kind |-> mach.kind, opts |-> IF mach.kind = "lisp" THEN <<"fwd">> \o mach.opts ELSE mach.opts]>>
  /\ UNCHANGED <<prog, vals, n, runs, tries, mach>>

Watching(o) == \E k \in 1..Len(mach.opts) : mach.opts[k] = o
OpN == {i \in 1..Len(prog) : prog[i].k = "op"}
Fails == \/ Watching("nan") /\ \E i \in OpN : HasN(vals[i])
         \/ Watching("inf") /\ \E i \in OpN : HasI(vals[i])
Run ==
  /\ ph = "run" /\ OpN # {}
  /\ runs' = runs + 1
  /\ ph' = IF runs + 1 = MaxRuns THEN "done" ELSE "let"
  /\ hist' = Append(hist, [a |-> "watch", err |-> Fails])
  /\ (ph' = "done") => PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<prog, vals, n, tries, mach>>
RECURSIVE EvalFrom(_, _)
EvalFrom(i, acc) == IF i > Len(prog) THEN acc ELSE EvalFrom(i + 1, [acc EXCEPT ![i] = EvalN(i, acc)])
Let ==
  /\ ph = "let"
  /\ ph' = "run"
  /\ LET In == {i \in 1..Len(prog) : prog[i].k = "in"} IN
     \E data \in {TLCEval([i \in In |-> RandVec(Prod(prog[i].s))])} :
     LET acc == [i \in 1..Len(prog) |-> IF i \in In THEN T(prog[i].s, [k \in 1..Len(data[i]) |-> AbstS(data[i][k])]) ELSE vals[i]]
         v2 == TLCEval(EvalFrom(1, acc))
     IN  IF \A i \in 1..Len(prog) : Decided(v2[i])
         THEN /\ vals' = v2
              /\ hist' = hist \o <<[a |-> "reset"], [a |-> "let", lets |-> [i \in 1..Cardinality(In) |->
                           [id |-> i, dt |-> mach.dt, sh |-> prog[i].s, v |-> [k \in 1..Len(data[i]) |-> Enc(data[i][k])]]]]>>
         ELSE /\ vals' = vals
              /\ hist' = hist \o <<[a |-> "reset"]>>
  /\ UNCHANGED <<prog, n, runs, tries, mach>>

FwdNext == AddIn \/ EndIn \/ AddOp \/ Vm \/ Run \/ Let

(***************************************************************************)
(* Derivatives: the cost is the sum of Sqrt(x) * w ("sqrt") or of          *)
(* Sqrt(x * w) ("prod"), for x and w that are not negative.  The           *)
(* derivative of the former by x is w / (2 Sqrt(x)): where x is zero it is *)
(* infinite (where w is zero as well, it depends).  The derivative of the  *)
(* root in the latter is infinite where x * w is zero, and times zero that *)
(* is NaN.  Everything else is finite.                                     *)
(***************************************************************************)
SqrtRun(x, w) ==
  LET ks == 1..Len(x)
      nan == Mode = "prod" /\ \E k \in ks : x[k] = "0" \/ w[k] = "0"
      inf == nan \/ (Mode = "sqrt" /\ \E k \in ks : x[k] = "0" /\ w[k] # "0")
      open == Mode = "sqrt" /\ \E k \in ks : x[k] = "0" /\ w[k] = "0"
      must == (Watching("nan") /\ nan) \/ (Watching("inf") /\ inf)
  IN  [a |-> "watch", err |-> must, flag |-> open /\ mach.opts # <<>> /\ ~must]
Grad1(s) == IF mach.kind = "lisp" THEN <<>> ELSE <<[a |-> "grad", cost |-> 5, wrt |-> IF Mode = "prod" THEN <<1, 2>> ELSE <<1>>, flag |-> FALSE]>>
SqrtSess ==
  /\ ph = "in"
  /\ \E s \in Pick(Shapes) : \E x1 \in {NonNeg(Prod(s))}, w1 \in {NonNeg(Prod(s))} : \E x2 \in {NonNeg(Prod(s))}, w2 \in {NonNeg(Prod(s))} :
     \E x3 \in {NonNeg(Prod(s))}, w3 \in {NonNeg(Prod(s))} :
     LET E(v) == [i \in 1..Len(v) |-> Enc(v[i])]
         In(id, v) == [a |-> "input", id |-> id, dt |-> mach.dt, sh |-> s, v |-> E(v), base |-> 0, how |-> "let"]
         Op(id, op, args, sh) == [a |-> "op", id |-> id, op |-> op, p |-> <<>>, args |-> args, dt |-> mach.dt, sh |-> sh]
         Again(x, w) == <<[a |-> "reset"], [a |-> "let", lets |-> <<[id |-> 1, dt |-> mach.dt, sh |-> s, v |-> E(x)], [id |-> 2, dt |-> mach.dt, sh |-> s, v |-> E(w)]>>],
                          SqrtRun(x, w)>>
     IN  hist' = <<In(1, x1), In(2, w1)>>
                 \o (IF Mode = "sqrt" THEN <<Op(3, "Sqrt", <<1>>, s), Op(4, "HadamardProd", <<3, 2>>, s)>>
                     ELSE <<Op(3, "HadamardProd", <<1, 2>>, s), Op(4, "Sqrt", <<3>>, s)>>)
                 \o (IF s = <<>> THEN <<Op(5, "Neg", <<4>>, <<>>)>> ELSE <<Op(5, "Sum", <<4>>, <<>>)>>)
                 \o Grad1(s) \o <<[a |-> "vm", kind |-> mach.kind, opts |-> mach.opts], SqrtRun(x1, w1)>>
                 \o Again(x2, w2) \o Again(x3, w3)
  /\ ph' = "done"
  /\ PrintT("@@" \o ToJson(hist'))
  /\ UNCHANGED <<prog, vals, n, runs, tries, mach>>
Next == IF Mode = "fwd" THEN FwdNext ELSE SqrtSess
=============================================================================
