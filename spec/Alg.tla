-------------------------------- MODULE Alg --------------------------------
(***************************************************************************)
(* Scalar algebra of the specification.                                    *)
(*                                                                         *)
(* A term is either an integer <<n>> or an uninterpreted application       *)
(* <<"f", t1, .., tk, size>>.  Applications whose arguments are integers   *)
(* are folded whenever the result is an exact (small) integer, so that     *)
(* ordinary arithmetic stays exact inside TLC; everything else is kept     *)
(* symbolic and is only interpreted (in floating point, with a running     *)
(* error bound) when a behaviour is replayed into the implementation.      *)
(*                                                                         *)
(* A dual number <<t, d>> carries a term and its sparse vector of partial  *)
(* derivatives (a function from variable numbers to terms).  Defining the  *)
(* elementary operations on duals gives the derivative of every operation  *)
(* of the library by construction: the specification never states a        *)
(* gradient rule for a tensor operation, only what the operation computes. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* F applied to the value of v. TLC evaluates an operator's argument at every *)
(* use of it; a bound variable stands for a value.                            *)
Bind(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
Bind2(v, w, F(_, _)) == CHOOSE r \in {F(x, y) : x \in {v}, y \in {w}} : TRUE

I(n)     == <<n>>
IsI(t)   == Len(t) = 1
Size(t)  == IF Len(t) = 1 THEN 1 ELSE t[Len(t)]
Zero     == <<0>>
One      == <<1>>
IsZ(t)   == Len(t) = 1 /\ t[1] = 0
IsOne(t) == Len(t) = 1 /\ t[1] = 1
Undef    == <<"undef", 1>>

T1(f, a)       == <<f, a, Size(a) + 1>>
T2(f, a, b)    == <<f, a, b, Size(a) + Size(b) + 1>>
T3(f, a, b, c) == <<f, a, b, c, Size(a) + Size(b) + Size(c) + 1>>

ABS(n) == IF n < 0 THEN -n ELSE n
SmallM(n) == n > -4000 /\ n < 4000
SmallA(n) == n > -16000000 /\ n < 16000000

tAdd(a, b) ==
  IF IsI(a) /\ IsI(b) /\ SmallA(a[1]) /\ SmallA(b[1]) THEN I(a[1] + b[1])
  ELSE IF IsZ(a) THEN b ELSE IF IsZ(b) THEN a
  ELSE T2("add", a, b)
tNeg(a) == IF IsI(a) THEN I(-a[1]) ELSE IF a[1] = "neg" THEN a[2] ELSE T1("neg", a)
tSub(a, b) ==
  IF IsI(a) /\ IsI(b) /\ SmallA(a[1]) /\ SmallA(b[1]) THEN I(a[1] - b[1])
  ELSE IF IsZ(b) THEN a ELSE IF IsZ(a) THEN tNeg(b)
  ELSE T2("sub", a, b)
tMul(a, b) ==
  IF IsI(a) /\ IsI(b) /\ SmallM(a[1]) /\ SmallM(b[1]) THEN I(a[1] * b[1])
  ELSE IF a = Undef \/ b = Undef THEN Undef
  ELSE IF IsZ(a) \/ IsZ(b) THEN Zero
  ELSE IF IsOne(a) THEN b ELSE IF IsOne(b) THEN a
  ELSE T2("mul", a, b)
tDiv(a, b) ==
  IF IsI(a) /\ IsI(b) /\ b[1] # 0 /\ ABS(a[1]) % ABS(b[1]) = 0
  THEN LET q == ABS(a[1]) \div ABS(b[1])
       IN  I(IF (a[1] < 0) # (b[1] < 0) THEN -q ELSE q)
  ELSE IF IsZ(a) /\ ~IsZ(b) THEN Zero
  ELSE IF IsOne(b) THEN a
  ELSE T2("div", a, b)

(* Rough bounds used to keep behaviours where floating point is far from   *)
(* overflow: Mag bounds the absolute value of a term (1000: unknown), Ex   *)
(* bounds its binary exponent.                                             *)
MINI(a, b) == IF a < b THEN a ELSE b
MAXI(a, b) == IF a > b THEN a ELSE b
RECURSIVE Mag(_)
Mag(t) ==
  IF IsI(t) THEN MINI(ABS(t[1]), 1000)
  ELSE CASE t[1] \in {"sin", "cos", "tanh", "sigmoid", "sign", "lt", "gt", "lte", "gte", "eq", "ne"} -> 1
         [] t[1] \in {"add", "sub"} -> MINI(1000, Mag(t[2]) + Mag(t[3]))
         [] t[1] = "mul" -> MINI(1000, Mag(t[2]) * Mag(t[3]))
         [] t[1] \in {"neg", "abs", "sqrt", "softplus", "floor", "ceil"} -> Mag(t[2]) + 1
         [] t[1] \in {"max", "min"} -> MAXI(Mag(t[2]), Mag(t[3]))
         [] t[1] = "div" -> IF IsI(t[3]) THEN Mag(t[2]) ELSE 1000
         [] t[1] = "ref" -> 4
         [] t[1] = "var" -> Mag(t[2])
         [] OTHER -> 1000
LogI(n) == IF n < 2 THEN 1 ELSE IF n < 16 THEN 4 ELSE IF n < 256 THEN 8 ELSE IF n < 65536 THEN 16 ELSE 31
RECURSIVE Ex(_)
Ex(t) ==
  IF IsI(t) THEN LogI(ABS(t[1]))
  ELSE CASE t[1] \in {"add", "sub", "max", "min"} -> MAXI(Ex(t[2]), Ex(t[3])) + 1
         [] t[1] \in {"mul", "div"} -> Ex(t[2]) + Ex(t[3])
         [] t[1] = "pow" -> 4 * Ex(t[2])
         [] t[1] = "var" -> Ex(t[2])
         [] t[1] \in {"exp", "expm1"} -> 18
         [] t[1] \in {"sin", "cos", "tanh", "sigmoid", "sign", "lt", "gt", "lte", "gte", "eq", "ne", "undef", "ite"} -> 1
         [] OTHER -> Ex(t[2]) + 1

(* comparisons are terms with value 0 or 1 *)
B2I(p) == IF p THEN One ELSE Zero
tLt(a, b)  == IF IsI(a) /\ IsI(b) THEN B2I(a[1] < b[1])  ELSE T2("lt", a, b)
tGt(a, b)  == IF IsI(a) /\ IsI(b) THEN B2I(a[1] > b[1])  ELSE T2("gt", a, b)
tLte(a, b) == IF IsI(a) /\ IsI(b) THEN B2I(a[1] <= b[1]) ELSE T2("lte", a, b)
tGte(a, b) == IF IsI(a) /\ IsI(b) THEN B2I(a[1] >= b[1]) ELSE T2("gte", a, b)
tEq(a, b)  == IF IsI(a) /\ IsI(b) THEN B2I(a[1] = b[1])  ELSE T2("eq", a, b)
tNe(a, b)  == IF IsI(a) /\ IsI(b) THEN B2I(a[1] # b[1])  ELSE T2("ne", a, b)
tIte(c, a, b) == IF IsI(c) THEN (IF c[1] # 0 THEN a ELSE b)
                 ELSE IF a = b THEN a ELSE T3("ite", c, a, b)

RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN One ELSE tMul(b, IPow(b, e - 1))
tPow(a, b) ==
  IF IsI(b) /\ b[1] >= 0 /\ b[1] <= 4 /\ IsI(a) /\ ABS(a[1]) <= 12 THEN IPow(a, b[1])
  ELSE T2("pow", a, b)

tUn(f, a) == T1(f, a)
tAbs(a)   == IF IsI(a) THEN I(ABS(a[1])) ELSE T1("abs", a)
tSign(a)  == IF IsI(a) THEN I(IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0) ELSE T1("sign", a)
tCeil(a)  == IF IsI(a) THEN a ELSE T1("ceil", a)
tFloor(a) == IF IsI(a) THEN a ELSE T1("floor", a)
tExp(a)   == IF IsZ(a) THEN One ELSE T1("exp", a)
tLn(a)    == IF IsOne(a) THEN Zero ELSE T1("ln", a)
tSqrt(a)  == IF IsZ(a) THEN Zero ELSE IF IsOne(a) THEN One ELSE T1("sqrt", a)
tMin(a, b) == IF IsI(a) /\ IsI(b) THEN (IF a[1] <= b[1] THEN a ELSE b) ELSE T2("min", a, b)
tMax(a, b) == IF IsI(a) /\ IsI(b) THEN (IF a[1] >= b[1] THEN a ELSE b) ELSE T2("max", a, b)

(* conservative sign analysis, used by generators to stay inside domains *)
RECURSIVE IsPos(_)
IsPos(t) ==
  IF IsI(t) THEN t[1] > 0
  ELSE CASE t[1] \in {"exp", "sigmoid", "softplus"} -> TRUE
         [] t[1] \in {"add", "mul", "div", "max", "min", "pow"} -> IsPos(t[2]) /\ (IsPos(t[3]) \/ t[1] = "pow")
         [] t[1] \in {"sqrt", "var"} -> IsPos(t[2])
         [] OTHER -> FALSE
NonZero(t) == (IsI(t) /\ t[1] # 0) \/ IsPos(t) \/ (~IsI(t) /\ t[1] = "neg" /\ IsPos(t[2])) \/ (~IsI(t) /\ t[1] = "var" /\ ~IsZ(t[2]))

(***************************************************************************)
(* Dual numbers                                                            *)
(***************************************************************************)
NoD == <<>>
C(n)      == <<I(n), NoD>>
V(n, k)   == <<I(n), [j \in {k} |-> One]>>
Val(x)    == x[1]
Der(x)    == x[2]
Const(t)  == <<t, NoD>>

dScale(c, d) == IF DOMAIN d = {} THEN NoD ELSE TLCEval([k \in DOMAIN d |-> tMul(c, d[k])])
dAdd(a, b) ==
  IF DOMAIN a = {} THEN b ELSE IF DOMAIN b = {} THEN a
  ELSE TLCEval([k \in DOMAIN a \cup DOMAIN b |->
          IF k \in DOMAIN a
          THEN IF k \in DOMAIN b THEN tAdd(a[k], b[k]) ELSE a[k]
          ELSE b[k]])
dNeg(a) == IF DOMAIN a = {} THEN NoD ELSE TLCEval([k \in DOMAIN a |-> tNeg(a[k])])
dIte(c, a, b) ==
  IF IsI(c) THEN (IF c[1] # 0 THEN a ELSE b)
  ELSE IF DOMAIN a = {} /\ DOMAIN b = {} THEN NoD
  ELSE [k \in DOMAIN a \cup DOMAIN b |->
          tIte(c, IF k \in DOMAIN a THEN a[k] ELSE Zero, IF k \in DOMAIN b THEN b[k] ELSE Zero)]
dUndef(a) == IF DOMAIN a = {} THEN NoD ELSE [k \in DOMAIN a |-> Undef]

dSum(a, b) == Bind2(a, b, dAdd)
dTimes(c, d) == IF DOMAIN d = {} THEN NoD ELSE Bind(c, LAMBDA v : dScale(v, d))
sAdd(x, y) == Bind2(x, y, LAMBDA u, w : <<tAdd(u[1], w[1]), dAdd(u[2], w[2])>>)
sSub(x, y) == Bind2(x, y, LAMBDA u, w : <<tSub(u[1], w[1]), dSum(u[2], dNeg(w[2]))>>)
sNeg(x)    == Bind(x, LAMBDA u : <<tNeg(u[1]), dNeg(u[2])>>)
sMul(x, y) == Bind2(x, y, LAMBDA u, w : <<tMul(u[1], w[1]), dSum(dScale(w[1], u[2]), dScale(u[1], w[2]))>>)
sDiv(x, y) == Bind2(x, y, LAMBDA u, w : Bind(tDiv(u[1], w[1]), LAMBDA z :
                <<z, dSum(dTimes(tDiv(One, w[1]), u[2]),
                          dTimes(Bind(tDiv(z, w[1]), tNeg), w[2]))>>))
(* pow: the partial with respect to the exponent only when it varies *)
sPow(x, y) == Bind2(x, y, LAMBDA u, w : Bind(tPow(u[1], w[1]), LAMBDA z :
                <<z, dSum(dTimes(Bind(tPow(u[1], tSub(w[1], One)), LAMBDA v : tMul(w[1], v)), u[2]),
                          dTimes(tMul(z, tLn(u[1])), w[2]))>>))

(* chain rule for a unary function with value v and slope s *)
Chain(v, s, d) == <<v, dTimes(s, d)>>

Kink(a, z) == \* Undef exactly at an integer kink
  IF IsI(a) /\ a[1] = 0 THEN Undef ELSE z

sUnV(f, x) ==
  LET a == x[1]  d == x[2]
  IN CASE f = "Abs"      -> Chain(tAbs(a), Kink(a, tSign(a)), d)
       [] f = "Sign"     -> Chain(tSign(a), Kink(a, Zero), d)
       [] f = "Ceil"     -> Chain(tCeil(a), IF IsI(a) THEN Undef ELSE Zero, d)
       [] f = "Floor"    -> Chain(tFloor(a), IF IsI(a) THEN Undef ELSE Zero, d)
       [] f = "Sin"      -> Chain(T1("sin", a), T1("cos", a), d)
       [] f = "Cos"      -> Chain(T1("cos", a), tNeg(T1("sin", a)), d)
       [] f = "Exp"      -> Chain(tExp(a), tExp(a), d)
       [] f = "Log"      -> Chain(tLn(a), tDiv(One, a), d)
       [] f = "Log2"     -> Chain(IF IsOne(a) THEN Zero ELSE T1("log2", a), tDiv(One, tMul(a, T1("ln", I(2)))), d)
       [] f = "Neg"      -> sNeg(x)
       [] f = "Square"   -> sMul(x, x)
       [] f = "Sqrt"     -> Chain(tSqrt(a), IF IsZ(a) THEN Undef ELSE tDiv(One, tMul(I(2), tSqrt(a))), d)
       [] f = "Inverse"  -> sDiv(C(1), x)
       [] f = "InverseSqrt" -> LET r == tDiv(One, tSqrt(a))
                               IN  Chain(r, tNeg(tDiv(r, tMul(I(2), a))), d)
       [] f = "Cube"     -> sMul(x, sMul(x, x))
       [] f = "Tanh"     -> LET th == IF IsZ(a) THEN Zero ELSE T1("tanh", a)
                            IN  Chain(th, tSub(One, tMul(th, th)), d)
       [] f = "Sigmoid"  -> LET s == T1("sigmoid", a)
                            IN  Chain(s, tMul(s, tSub(One, s)), d)
       [] f = "Log1p"    -> Chain(T1("log1p", a), tDiv(One, tAdd(One, a)), d)
       [] f = "Expm1"    -> Chain(T1("expm1", a), tExp(a), d)
       [] f = "Softplus" -> Chain(T1("softplus", a), T1("sigmoid", a), d)

sUn(f, x) == Bind(x, LAMBDA v : sUnV(f, v))

UnaryFns == {"Abs", "Sign", "Ceil", "Floor", "Sin", "Cos", "Exp", "Log", "Log2", "Neg",
             "Square", "Sqrt", "Inverse", "InverseSqrt", "Cube", "Tanh", "Sigmoid",
             "Log1p", "Expm1", "Softplus"}

(* ties between comparands have no derivative *)
CmpD(x, y) == IF IsI(x[1]) /\ IsI(y[1]) /\ x[1] = y[1]
              THEN dUndef(dAdd(x[2], y[2]))
              ELSE IF DOMAIN x[2] = {} /\ DOMAIN y[2] = {} THEN NoD
              ELSE [k \in DOMAIN x[2] \cup DOMAIN y[2] |->
                      IF IsI(x[1]) /\ IsI(y[1]) THEN Zero
                      ELSE tIte(tEq(x[1], y[1]), Undef, Zero)]
Tied(x, y, d) == IF IsI(x[1]) /\ IsI(y[1]) THEN d ELSE dIte(tEq(x[1], y[1]), dUndef(d), d)
sBinV(f, x, y) ==
  CASE f = "Add"  -> sAdd(x, y)
    [] f = "Sub"  -> sSub(x, y)
    [] f = "HadamardProd" -> sMul(x, y)
    [] f = "HadamardDiv"  -> sDiv(x, y)
    [] f = "Pow"  -> sPow(x, y)
    [] f = "Lt"   -> <<tLt(x[1], y[1]), CmpD(x, y)>>
    [] f = "Gt"   -> <<tGt(x[1], y[1]), CmpD(x, y)>>
    [] f = "Lte"  -> <<tLte(x[1], y[1]), CmpD(x, y)>>
    [] f = "Gte"  -> <<tGte(x[1], y[1]), CmpD(x, y)>>
    [] f = "Eq"   -> <<tEq(x[1], y[1]), CmpD(x, y)>>
    [] f = "Ne"   -> <<tNe(x[1], y[1]), CmpD(x, y)>>
    [] f = "MinBetween" -> <<tMin(x[1], y[1]),
         IF x[1] = y[1] THEN dUndef(dAdd(x[2], y[2]))
         ELSE Tied(x, y, dIte(tLt(x[1], y[1]), x[2], y[2]))>>
    [] f = "MaxBetween" -> <<tMax(x[1], y[1]),
         IF x[1] = y[1] THEN dUndef(dAdd(x[2], y[2]))
         ELSE Tied(x, y, dIte(tGt(x[1], y[1]), x[2], y[2]))>>
sBin(f, x, y) == Bind2(x, y, LAMBDA u, w : sBinV(f, u, w))
ArithFns == {"Add", "Sub", "HadamardProd", "HadamardDiv", "Pow"}
CmpFns   == {"Lt", "Gt", "Lte", "Gte", "Eq", "Ne"}

sMaxOf(x, y) == sBin("MaxBetween", x, y)
=============================================================================
