-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* The operator catalogue: for every public operator of the library, which *)
(* operand shapes and parameters are legal, and which tensor the operator  *)
(* denotes.  Legal/Params/Eval are total on the shapes used by the models. *)
(***************************************************************************)
EXTENDS Tens

NNShape(s) == Len(s) = 4
Axes(s) == 0..(Len(s) - 1)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN  <<m>> \o SetToSeq(S \ {m})
RECURSIVE SetToSeqS(_)
SetToSeqS(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o SetToSeqS(S \ {m})
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>}
            ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
Ident(n) == [i \in 1..n |-> i - 1]

(* factorisations of n into at most three factors, as shapes *)
Shapes1(n) == {<<n>>}
Shapes2(n) == {<<a, n \div a>> : a \in {d \in 1..n : n % d = 0}}
Shapes3(n) == UNION {{<<a>> \o r : r \in Shapes2(n \div a)} : a \in {d \in 1..n : n % d = 0}}
ReshapeTargets(n) == Shapes1(n) \cup Shapes2(n) \cup Shapes3(n) \cup (IF n = 1 THEN {<<>>} ELSE {})

(* one slice range over an axis of length n: <<>> is the nil slice *)
Ranges(n) == {<<>>} \cup {<<a, b, 1>> : a \in 0..(n - 1), b \in 1..n}
                    \cup {<<a, b, 2>> : a \in 0..(n - 1), b \in 1..n}
OkRange(r, n) == \/ r = <<>> /\ n > 1
                 \/ r # <<>> /\ r[1] < r[2] /\ (r[3] = 1 \/ ((r[2] - r[1]) % 2 = 0 /\ r[2] - r[1] >= 4))
RangesOk(n) == {r \in Ranges(n) : OkRange(r, n)}
ToR(r, n) == IF r = <<>> THEN <<0, n, 1, FALSE>> ELSE <<r[1], r[2], r[3], r[2] - r[1] = 1>>

(* 2-d pooling and convolution window counts *)
OutDim(n, k, pad, st, dil) == ((n + 2 * pad - (dil * (k - 1) + 1)) \div st) + 1

Conv2dT(im, f, pad, st, dil) ==
  LET b == im.s[1]  ci == im.s[2]  h == im.s[3]  w == im.s[4]
      co == f.s[1]  kh == f.s[3]   kw == f.s[4]
      oh == OutDim(h, kh, pad[1], st[1], dil[1])
      ow == OutDim(w, kw, pad[2], st[2], dil[2])
      K  == <<ci, kh, kw>>
      px(bi, c, y, x) == IF y < 0 \/ y >= h \/ x < 0 \/ x >= w THEN C(0)
                         ELSE At(im, <<bi, c, y, x>>)
  IN  Tab(<<b, co, oh, ow>>, LAMBDA ix :
        SumSeq([k \in 1..NElem(K) |->
          Bind(Unlin(k, K), LAMBDA j :
              sMul(px(ix[1], j[1], ix[3] * st[1] - pad[1] + j[2] * dil[1],
                                   ix[4] * st[2] - pad[2] + j[3] * dil[2]),
                   At(f, <<ix[2], j[1], j[2], j[3]>>)))]))

(* elements of a pooling window that lie inside the image *)
RECURSIVE WindowFrom(_, _, _, _, _, _, _, _)
WindowFrom(t, bi, c, y0, x0, kh, kw, k) ==
  IF k > kh * kw THEN <<>>
  ELSE LET y == y0 + ((k - 1) \div kw)  x == x0 + ((k - 1) % kw)
       IN  (IF y < 0 \/ y >= t.s[3] \/ x < 0 \/ x >= t.s[4] THEN <<>> ELSE <<At(t, <<bi, c, y, x>>)>>)
           \o WindowFrom(t, bi, c, y0, x0, kh, kw, k + 1)
(* two paddings: the same before and after; four: rows after, rows before,    *)
(* columns after, columns before                                              *)
PadRows(pad) == IF Len(pad) = 4 THEN <<pad[1], pad[2]>> ELSE <<pad[1], pad[1]>>
PadCols(pad) == IF Len(pad) = 4 THEN <<pad[3], pad[4]>> ELSE <<pad[2], pad[2]>>
PoolT(t, k, pad, st, R(_)) ==
  LET pr == PadRows(pad)
      pc == PadCols(pad)
      oh == (t.s[3] + pr[1] + pr[2] - k[1]) \div st[1] + 1
      ow == (t.s[4] + pc[1] + pc[2] - k[2]) \div st[2] + 1
  IN  Tab(<<t.s[1], t.s[2], oh, ow>>, LAMBDA ix :
        R(WindowFrom(t, ix[1], ix[2], ix[3] * st[1] - pr[2], ix[4] * st[2] - pc[2], k[1], k[2], 1)))
PadsFit(k, pad) == \A i \in 1..2 : PadRows(pad)[i] < k[1] /\ PadCols(pad)[i] < k[2]
MaxPoolT(t, k, pad, st) == PoolT(t, k, pad, st, MaxSeq)
UpsampleT(t, sc) ==
  Tab(<<t.s[1], t.s[2], t.s[3] * sc, t.s[4] * sc>>, LAMBDA ix :
      At(t, <<ix[1], ix[2], ix[3] \div sc, ix[4] \div sc>>))
(* mean over the window, padding counted as zeroes *)
AvgPoolT(t, k, pad, st) == PoolT(t, k, pad, st, LAMBDA q : sDiv(SumSeq(q), C(k[1] * k[2])))
(* patches as rows: one row per output position, channel-major patch *)
Im2ColT(t, k, pad, st, dil) ==
  LET oh == OutDim(t.s[3], k[1], pad[1], st[1], dil[1])
      ow == OutDim(t.s[4], k[2], pad[2], st[2], dil[2])
      K  == <<t.s[2], k[1], k[2]>>
  IN  Tab(<<t.s[1], oh, ow, NElem(K)>>, LAMBDA ix :
        Bind(Unlin(ix[4] + 1, K), LAMBDA j :
        LET y == ix[2] * st[1] - pad[1] + j[2] * dil[1]
            x == ix[3] * st[2] - pad[2] + j[3] * dil[2]
        IN  IF y < 0 \/ y >= t.s[3] \/ x < 0 \/ x >= t.s[4] THEN C(0) ELSE At(t, <<ix[1], j[1], y, x>>)))
DiagT(t) == LET n == NElem(t.s) IN Tab(<<n, n>>, LAMBDA ix : IF ix[1] = ix[2] THEN t.x[ix[1] + 1] ELSE C(0))
(* rows (along one axis) picked by a list of positions *)
PickT(t, ax, q) == Tab([t.s EXCEPT ![ax + 1] = Len(q)], LAMBDA ix : At(t, [ix EXCEPT ![ax + 1] = q[@ + 1]]))
(* the projection onto the simplex, along the last axis, of integer rows *)
SparseRow(q) ==
  LET gt(i) == {j \in 1..Len(q) : q[j][1][1] > q[i][1][1]}
      ge(i) == {j \in 1..Len(q) : q[j][1][1] >= q[i][1][1]}
      tot(S) == LET z == [i \in 1..Len(q) |-> IF i \in S THEN q[i] ELSE C(0)] IN SumSeq(z)
      itot(S) == tot(S)[1][1]
      \* i is in the support iff 1 + k z_i > sum of the k largest, with k its rank
      in(i) == 1 + Cardinality(ge(i)) * q[i][1][1] > itot(ge(i))
      edge == \E i \in 1..Len(q) : 1 + Cardinality(ge(i)) * q[i][1][1] = itot(ge(i))
      S == {i \in 1..Len(q) : in(i)}
      tau == sDiv(sSub(tot(S), C(1)), C(Cardinality(S)))
  IN  [i \in 1..Len(q) |-> LET r == IF i \in S THEN sSub(q[i], tau) ELSE <<Zero, NoD>>
                           IN  IF edge THEN <<r[1], dUndef(dAdd(r[2], tot(1..Len(q))[2]))>> ELSE r]
SparsemaxT(t) ==
  LET n == Len(t.s)  w == t.s[n]
  IN  Bind(TLCEval([r \in 1..(Len(t.x) \div w) |-> Bind(TLCEval([j \in 1..w |-> t.x[(r - 1) * w + j]]), LAMBDA q : TLCEval(SparseRow(q)))]), LAMBDA rows :
      [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> rows[((k - 1) \div w) + 1][((k - 1) % w) + 1]])])
LSET(t, ax) == Map(SumT(Map(t, LAMBDA v : sUn("Exp", v)), {ax}), LAMBDA v : sUn("Log", v))
(* group normalisation with epsilon 1 *)
GroupNormT(t, sc, bi, g) ==
  LET b == t.s[1]  c == t.s[2]  inner == NElem(t.s) \div (b * g)
      sec(k) == (k - 1) \div inner      \* which (batch, group)
      chan(k) == ((k - 1) \div (NElem(t.s) \div (b * c))) % c
      all == TLCEval([q \in 1..(b * g) |->
                LET xs == [j \in 1..inner |-> t.x[(q - 1) * inner + j]]
                IN  Bind(sDiv(SumSeq(xs), C(inner)), LAMBDA mu :
                    LET var == sDiv(SumSeq([j \in 1..inner |-> Bind(sSub(xs[j], mu), LAMBDA d : sMul(d, d))]), C(inner))
                    IN  <<mu, sUn("InverseSqrt", sAdd(var, C(1)))>>)])
  IN  Bind(all, LAMBDA secs : [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |->
        sAdd(sMul(sc.x[chan(k) + 1], sMul(sSub(t.x[k], secs[sec(k) + 1][1]), secs[sec(k) + 1][2])),
             bi.x[chan(k) + 1])])])
XentT(a, b) == \* binary cross entropy of sigmoid(a) against b
  Zip(a, b, LAMBDA x, y : LET s == sUn("Sigmoid", x)
                          IN  sNeg(sAdd(sMul(y, sUn("Log", s)), sMul(sSub(C(1), y), sUn("Log", sSub(C(1), s))))))
GAPT(t) == LET m == MeanT(t, {2, 3}) IN [s |-> m.s \o <<1, 1>>, x |-> m.x]

(* broadcasting: the listed axes of each operand are expanded to the other's size *)
(* operands of lower rank get size-1 axes exactly at the listed positions         *)
RECURSIVE InsOnes(_, _, _, _)
InsOnes(s, n, A, i) ==
  IF i > n THEN <<>>
  ELSE IF (i - 1) \in A
       THEN <<1>> \o InsOnes(s, n, A, i + 1)
       ELSE <<Head(s)>> \o InsOnes(Tail(s), n, A, i + 1)
BCShape(s, n, A) == IF Len(s) = n THEN s ELSE InsOnes(s, n, A, 1)
BroadcastT(f, a, b, la, ra) ==
  LET n == IF Len(a.s) > Len(b.s) THEN Len(a.s) ELSE Len(b.s)
      a1 == Reshape(a, BCShape(a.s, n, la))
      b1 == Reshape(b, BCShape(b.s, n, ra))
      os == [i \in 1..n |-> IF (i - 1) \in la THEN b1.s[i] ELSE a1.s[i]]
  IN  Zip(Expand(a1, os), Expand(b1, os), LAMBDA x, y : sBin(f, x, y))
(* legal pattern: listed axes have size 1 (after padding), the others agree *)
BCLegal(a, b, la, ra) ==
  /\ a.s # <<>> /\ b.s # <<>>
  /\ la \cap ra = {}
  /\ LET n == IF Len(a.s) > Len(b.s) THEN Len(a.s) ELSE Len(b.s)
     IN  /\ n <= 4
         /\ la \subseteq 0..(n - 1) /\ ra \subseteq 0..(n - 1)
         /\ Len(a.s) = n \/ (Len(a.s) + Cardinality(la) = n /\ ra = {})
         /\ Len(b.s) = n \/ (Len(b.s) + Cardinality(ra) = n /\ la = {})
         /\ LET a1 == BCShape(a.s, n, la)  b1 == BCShape(b.s, n, ra)
            IN  \A i \in 1..n : /\ (i - 1) \in la => a1[i] = 1
                                /\ (i - 1) \in ra => b1[i] = 1
                                /\ (i - 1) \notin (la \cup ra) => a1[i] = b1[i]

BroadcastFns == [BroadcastAdd |-> "Add", BroadcastSub |-> "Sub",
                 BroadcastHadamardProd |-> "HadamardProd", BroadcastHadamardDiv |-> "HadamardDiv",
                 BroadcastPow |-> "Pow",
                 BroadcastLt |-> "Lt", BroadcastGt |-> "Gt", BroadcastLte |-> "Lte",
                 BroadcastGte |-> "Gte", BroadcastEq |-> "Eq", BroadcastNe |-> "Ne"]
BroadcastOps == DOMAIN BroadcastFns
BroadcastCmp == {op \in BroadcastOps : BroadcastFns[op] \in CmpFns}
AutoFns == [AutoAdd |-> "Add", AutoSub |-> "Sub", AutoHadamardProd |-> "HadamardProd", AutoHadamardDiv |-> "HadamardDiv"]
AutoOps == DOMAIN AutoFns
AutoLeft(a, b) == {i \in 0..(Len(a.s) - 1) : a.s[i + 1] < b.s[i + 1]}

UnaryOps  == UnaryFns
ActOps    == {"Rectify", "LeakyRelu", "Mish"}
PointOps  == ArithFns
CmpOps    == CmpFns
RedOps    == {"Sum", "Max", "Mean"}
ShapeOps  == {"Transpose", "Reshape", "Ravel", "Slice", "At", "SizeOf"}
LinOps    == {"Mul", "OuterProd", "BatchedMatMul", "Tensordot"}
CatOps    == {"Concat"}
SoftOps   == {"SoftMax", "LogSoftMax"}
NNOps     == {"Conv2d", "MaxPool2D", "Upsample2D", "GlobalAveragePool2D"}

Arity(op) ==
  IF op \in ArithFns \cup CmpFns \cup LinOps \cup BroadcastOps \cup AutoOps \cup {"MinBetween", "MaxBetween", "Conv2d", "Conv1d", "Concat", "Div", "XentSigmoid", "FlakyAdd"} THEN 2
  ELSE IF op \in {"Concat3", "ReduceAdd", "ReduceMul", "GroupNorm"} THEN 3
  ELSE 1

SameOrScalar(a, b) == a.s = b.s \/ IsScalar(a) \/ IsScalar(b)

(* legal operand shapes (dtype agreement is checked by the caller) *)
Legal(op, ts) ==
  LET a == ts[1]  b == ts[Len(ts)] IN
  CASE op \in UnaryFns \cup {"Rectify", "LeakyRelu", "Mish"} -> TRUE
    [] op \in ArithFns \cup CmpFns -> SameOrScalar(a, b)
    [] op \in {"MinBetween", "MaxBetween", "FlakyAdd"} -> a.s = b.s
    [] op = "FlakyId" -> TRUE
    [] op \in RedOps -> ~IsScalar(a)
    [] op = "Norm" -> ~IsScalar(a)
    [] op = "Transpose" -> Len(a.s) >= 2
    [] op = "Reshape" -> TRUE
    [] op \in {"Ravel", "Slice", "At", "SizeOf"} -> ~IsScalar(a)
    [] op = "Mul" -> \/ IsScalar(a) \/ IsScalar(b)
                     \/ (IsVec(a) /\ IsVec(b) /\ a.s = b.s)
                     \/ (IsMat(a) /\ IsVec(b) /\ a.s[2] = b.s[1])
                     \/ (IsVec(a) /\ IsMat(b) /\ a.s[1] = b.s[1])
                     \/ (IsMat(a) /\ IsMat(b) /\ a.s[2] = b.s[1])
    [] op = "OuterProd" -> IsVec(a) /\ IsVec(b) /\ NElem(a.s) * NElem(b.s) <= 150
    [] op = "BatchedMatMul" -> Len(a.s) = 3 /\ Len(b.s) = 3 /\ a.s[1] = b.s[1]
    [] op = "Tensordot" -> NElem(a.s) * NElem(b.s) <= 600 /\ ~IsScalar(a) /\ ~IsScalar(b) /\ 1 \notin SeqToSet(a.s) /\ 1 \notin SeqToSet(b.s)
    [] op = "Concat" -> ~IsScalar(a) /\ Len(a.s) = Len(b.s)
    [] op = "Concat3" -> ~IsScalar(a) /\ Len(a.s) = Len(b.s) /\ Len(a.s) = Len(ts[2].s)
    [] op = "ReduceAdd" -> a.s = b.s /\ a.s = ts[2].s
    [] op = "ReduceMul" -> a.s = b.s /\ a.s = ts[2].s /\ (IsScalar(a) \/ (IsMat(a) /\ a.s[1] = a.s[2]))
    [] op = "Div" -> SameOrScalar(a, b)
    [] op = "XentSigmoid" -> a.s = b.s
    [] op = "ConvRT" -> TRUE              \* to integers and back
    [] op = "DiagFlat" -> NElem(a.s) \in 2..9
    [] op = "Unconcat" -> ~IsScalar(a) /\ 1 \notin SeqToSet(a.s)
    [] op \in {"KeepDimsSum", "KeepDimsMean"} -> Len(a.s) >= 2
    [] op \in {"LogSumExp", "Sparsemax"} -> ~IsScalar(a)
    [] op = "ByIndices" -> Len(a.s) \in {1, 2} /\ NElem(a.s) > 1
    [] op \in AutoOps -> ~IsScalar(a) /\ Len(a.s) = Len(b.s) /\ a.s # b.s /\ Len(a.s) <= 4
                        /\ \A i \in 1..Len(a.s) : a.s[i] = b.s[i] \/ a.s[i] = 1 \/ b.s[i] = 1
    [] op = "Conv1d" -> NNShape(a.s) /\ NNShape(b.s) /\ a.s[2] = b.s[2] /\ b.s[3] = 1
    [] op \in {"AveragePool2D", "Im2Col"} -> NNShape(a.s)
    [] op \in {"MaxPool1D", "AveragePool1D"} -> NNShape(a.s)
    [] op = "GroupNorm" -> NNShape(a.s) /\ ts[2].s = <<1, a.s[2], 1, 1>> /\ b.s = ts[2].s
    [] op \in SoftOps -> ~IsScalar(a)
    [] op = "Conv2d" -> NNShape(a.s) /\ NNShape(b.s) /\ a.s[2] = b.s[2]
    [] op \in {"MaxPool2D", "Upsample2D", "GlobalAveragePool2D"} -> NNShape(a.s)
    [] op \in BroadcastOps -> ~IsScalar(a) /\ ~IsScalar(b)
    [] OTHER -> FALSE

TensordotParams(a, b) ==
  {<<<<i>>, <<j>>>> : <<i, j>> \in {p \in Axes(a.s) \X Axes(b.s) : a.s[p[1] + 1] = b.s[p[2] + 1]}}
  \cup
  {<<<<i, k>>, <<j, l>>>> : <<i, k, j, l>> \in
      {p \in Axes(a.s) \X Axes(a.s) \X Axes(b.s) \X Axes(b.s) :
         p[1] # p[2] /\ p[3] # p[4]
         /\ a.s[p[1] + 1] = b.s[p[3] + 1] /\ a.s[p[2] + 1] = b.s[p[4] + 1]}}

RECURSIVE SliceParams(_, _)
SliceParams(s, k) == \* all slice lists for the first k axes
  IF k = 0 THEN {<<>>}
  ELSE {Append(q, r) : q \in SliceParams(s, k - 1), r \in RangesOk(s[k])}

(* parameters of an operator for given operands *)
Params(op, ts) ==
  LET a == ts[1]  b == ts[Len(ts)] IN
  CASE op \in CmpFns -> {<<TRUE>>, <<FALSE>>}
    [] op = "LeakyRelu" -> {<<2>>}     \* slope 1/2^2
    [] op \in {"FlakyId", "FlakyAdd"} -> {<<m>> : m \in 0..2}   \* operators of the caller's own: what they implement
    [] op \in RedOps -> {<<>>} \cup {SetToSeq(S) : S \in (SUBSET Axes(a.s)) \ {{}}}
    [] op = "Norm" -> {<<ax, p>> : ax \in Axes(a.s), p \in {1, 2, 3, 4}}
    [] op \in {"LogSumExp", "KeepDimsSum"} -> {<<ax>> : ax \in Axes(a.s)}
    [] op = "KeepDimsMean" -> {<<ax, l>> : ax \in Axes(a.s), l \in {0, 1}}
    [] op = "Unconcat" -> {<<ax, n, i>> : <<ax, n, i>> \in {q \in Axes(a.s) \X (1..4) \X (0..3) :
                             a.s[q[1] + 1] % q[2] = 0 /\ a.s[q[1] + 1] \div q[2] > 1 /\ q[3] < q[2]}}
    [] op = "ByIndices" -> {<<<<ax>>, q>> : <<ax, q>> \in
                              {z \in Axes(a.s) \X {<<0>>, <<0, 0>>, <<1, 0>>, <<1, 1, 0>>, <<0, 1, 2, 1>>} :
                                 /\ \A i \in 1..Len(z[2]) : z[2][i] < a.s[z[1] + 1]
                                 /\ Len(z[2]) * NElem(a.s) > a.s[z[1] + 1]}}   \* not down to one element
    [] op = "Concat3" -> {<<ax>> : ax \in {x \in Axes(a.s) :
                            \A i \in 1..Len(a.s) : i - 1 = x \/ (a.s[i] = b.s[i] /\ a.s[i] = ts[2].s[i])}}
    [] op = "Conv1d" ->
         {<<p, st, d>> : <<p, st, d>> \in
            {q \in (0..1) \X (1..2) \X (1..2) : a.s[4] + 2 * q[1] >= q[3] * (b.s[4] - 1) + 1}}
    [] op = "AveragePool2D" ->
         {<<k, pad, st>> : <<k, pad, st>> \in
            {q \in ((1..3) \X (1..3)) \X {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1, 1, 0>>, <<1, 0, 0, 0>>} \X ((1..2) \X (1..2)) :
               q[1][1] <= a.s[3] /\ q[1][2] <= a.s[4] /\ PadsFit(q[1], q[2])}}
    [] op = "MaxPool1D" ->
         {<<k, p, st>> : <<k, p, st>> \in {q \in (1..3) \X (0..1) \X (1..2) : q[1] <= a.s[4] /\ q[2] < q[1]}}
    [] op = "AveragePool1D" -> {<<k, p, st>> : <<k, p, st>> \in {q \in (1..3) \X (0..1) \X (1..2) : q[1] <= a.s[4] /\ q[2] < q[1]}}
    [] op = "Im2Col" ->
         {<<k, p, st, d>> : <<k, p, st, d>> \in
            {q \in {<<1, 2>>, <<2, 1>>, <<2, 3>>} \X {<<0, 0>>, <<1, 0>>, <<1, 2>>} \X {<<1, 1>>, <<2, 1>>, <<1, 2>>} \X {<<1, 1>>, <<2, 1>>, <<1, 2>>} :
               /\ a.s[3] + 2 * q[2][1] >= q[4][1] * (q[1][1] - 1) + 1
               /\ a.s[4] + 2 * q[2][2] >= q[4][2] * (q[1][2] - 1) + 1}}
    [] op = "GroupNorm" -> {<<g>> : g \in {d \in 1..a.s[2] : a.s[2] % d = 0}}
    [] op = "Transpose" -> {<<>>} \cup Perms(Axes(a.s))
    [] op = "Reshape" -> ReshapeTargets(NElem(a.s))
    [] op = "Slice" -> SliceParams(a.s, 1) \cup (IF Len(a.s) > 1 THEN SliceParams(a.s, 2) ELSE {})
    [] op = "At" -> {Unlin(k, a.s) : k \in 1..NElem(a.s)}
    [] op = "SizeOf" -> {<<ax>> : ax \in Axes(a.s)}
    [] op = "BatchedMatMul" ->
         {<<ta, tb>> \in BOOLEAN \X BOOLEAN :
            (IF ta THEN a.s[2] ELSE a.s[3]) = (IF tb THEN b.s[3] ELSE b.s[2])}
    [] op = "Tensordot" -> {p \in TensordotParams(a, b) : Len(p[1]) < Len(a.s) \/ Len(p[2]) < Len(b.s)}
    [] op = "Concat" -> {<<ax>> : ax \in {x \in Axes(a.s) :
                            \A i \in 1..Len(a.s) : i - 1 = x \/ a.s[i] = b.s[i]}}
    [] op \in SoftOps -> {<<ax>> : ax \in {x \in Axes(a.s) : op = "SoftMax" \/ a.s[x + 1] > 1}}
    [] op = "Conv2d" ->
         {<<p, st, d>> : <<p, st, d>> \in
            {q \in ((0..1) \X (0..1)) \X ((1..2) \X (1..2)) \X ((1..2) \X (1..2)) :
               /\ a.s[3] + 2 * q[1][1] >= q[3][1] * (b.s[3] - 1) + 1
               /\ a.s[4] + 2 * q[1][2] >= q[3][2] * (b.s[4] - 1) + 1}}
    [] op = "MaxPool2D" ->
         {<<k, p, st>> : <<k, p, st>> \in
            {q \in ((1..3) \X (1..3)) \X ({<<0, 1, 1, 0>>, <<1, 0, 0, 2>>} \cup ((0..1) \X (0..1))) \X ((1..2) \X (1..2)) :
               q[1][1] <= a.s[3] /\ q[1][2] <= a.s[4] /\ PadsFit(q[1], q[2])}}
    [] op = "Upsample2D" -> {<<1>>, <<2>>, <<3>>}
    [] op \in BroadcastOps ->
         LET n == IF Len(a.s) > Len(b.s) THEN Len(a.s) ELSE Len(b.s)
             ax == 0..(n - 1)
             pats == {<<SetToSeq(p[1]), SetToSeq(p[2])>> :
                        p \in {q \in (SUBSET ax) \X (SUBSET ax) :
                                 /\ q[1] \cup q[2] # {} /\ BCLegal(a, b, q[1], q[2])}}
         IN  IF op \in BroadcastCmp THEN {q \o <<z>> : q \in pats, z \in {<<0>>, <<1>>}} ELSE pats
    [] OTHER -> {<<>>}

Eval(op, p, ts) ==
  LET a == ts[1]  b == ts[Len(ts)] IN
  CASE op \in UnaryFns -> Map(a, LAMBDA v : sUn(op, v))
    [] op \in ArithFns \cup CmpFns \cup {"MinBetween", "MaxBetween"} -> Zip(a, b, LAMBDA x, y : sBin(op, x, y))
    [] op = "FlakyId" -> a
    [] op = "FlakyAdd" -> Zip(a, b, LAMBDA x, y : sAdd(x, y))
    [] op = "Rectify" -> Map(a, LAMBDA v : sMaxOf(v, C(0)))
    [] op = "LeakyRelu" -> Map(a, LAMBDA v : sMaxOf(v, sDiv(v, C(4))))
    [] op = "Mish" -> Map(a, LAMBDA v : sMul(v, sUn("Tanh", sUn("Softplus", v))))
    [] op = "Sum"  -> SumT(a, IF p = <<>> THEN Axes(a.s) ELSE SeqToSet(p))
    [] op = "Max"  -> MaxT(a, IF p = <<>> THEN Axes(a.s) ELSE SeqToSet(p))
    [] op = "Mean" -> MeanT(a, IF p = <<>> THEN Axes(a.s) ELSE SeqToSet(p))
    [] op = "Norm" -> IF p[2] = 2
                      THEN Map(SumT(Map(a, LAMBDA v : sMul(v, v)), {p[1]}), LAMBDA v : sUn("Sqrt", v))
                      ELSE IF p[2] = 1 THEN SumT(Map(a, LAMBDA v : sUn("Abs", v)), {p[1]})
                      ELSE Map(SumT(Map(a, LAMBDA v : sPow(sUn("Abs", v), C(p[2]))), {p[1]}),
                               LAMBDA v : sPow(v, sDiv(C(1), C(p[2]))))
    [] op = "LogSumExp" -> LSET(a, p[1])
    [] op = "KeepDimsSum" -> LET r == SumT(a, {p[1]}) IN Reshape(r, <<1>> \o r.s)
    [] op = "KeepDimsMean" -> LET r == MeanT(a, {p[1]}) IN Reshape(r, IF p[2] = 1 THEN <<1>> \o r.s ELSE r.s \o <<1>>)
    [] op = "Unconcat" -> LET w == a.s[p[1] + 1] \div p[2]
                          IN  SliceT(a, [i \in 1..Len(a.s) |-> IF i = p[1] + 1 THEN <<p[3] * w, (p[3] + 1) * w, 1, FALSE>>
                                                                ELSE <<0, a.s[i], 1, FALSE>>])
    [] op = "ByIndices" -> PickT(a, p[1][1], p[2])
    [] op = "Sparsemax" -> IF \A k \in 1..Len(a.x) : IsI(a.x[k][1]) THEN SparsemaxT(a) ELSE a
    [] op = "DiagFlat" -> DiagT(a)
    [] op = "ConvRT" -> a
    [] op = "Div" -> Zip(a, b, sDiv)
    [] op = "XentSigmoid" -> XentT(a, b)
    [] op = "ReduceAdd" -> Zip(Zip(a, ts[2], sAdd), b, sAdd)
    [] op = "ReduceMul" -> IF IsScalar(a) THEN Zip(Zip(a, ts[2], sMul), b, sMul) ELSE MatMul(MatMul(a, ts[2]), b)
    [] op = "Concat3" -> ConcatT(ts, p[1])
    [] op = "Conv1d" -> Conv2dT(a, b, <<0, p[1]>>, <<1, p[2]>>, <<1, p[3]>>)
    [] op = "AveragePool2D" -> AvgPoolT(a, p[1], p[2], p[3])
    [] op = "AveragePool1D" -> AvgPoolT(a, <<1, p[1]>>, <<0, p[2]>>, <<1, p[3]>>)
    [] op = "MaxPool1D" -> MaxPoolT(a, <<1, p[1]>>, <<0, p[2]>>, <<1, p[3]>>)
    [] op = "Im2Col" -> Im2ColT(a, p[1], p[2], p[3], p[4])
    [] op = "GroupNorm" -> GroupNormT(a, ts[2], b, p[1])
    [] op \in AutoOps -> BroadcastT(AutoFns[op], a, b, AutoLeft(a, b), AutoLeft(b, a))
    [] op = "Transpose" -> Perm(a, IF p = <<>> THEN [i \in 1..Len(a.s) |-> Len(a.s) - i] ELSE p)
    [] op = "Reshape" -> Reshape(a, p)
    [] op = "Ravel" -> Reshape(a, <<NElem(a.s)>>)
    [] op = "Slice" -> SliceT(a, [i \in 1..Len(p) |-> ToR(p[i], a.s[i])])
    [] op = "At" -> Scal(At(a, p))
    [] op = "SizeOf" -> Scal(C(a.s[p[1] + 1]))
    [] op = "Mul" -> IF IsScalar(a) \/ IsScalar(b) THEN Zip(a, b, sMul)
                     ELSE IF IsVec(a) /\ IsVec(b) THEN Dot(a, b)
                     ELSE IF IsMat(a) /\ IsVec(b) THEN MatVec(a, b)
                     ELSE IF IsVec(a) THEN MatVec(Trans2(b), a)
                     ELSE MatMul(a, b)
    [] op = "OuterProd" -> Outer(a, b)
    [] op = "BatchedMatMul" -> BMM(a, b, p[1], p[2])
    [] op = "Tensordot" -> TensorDot(a, b, p[1], p[2])
    [] op = "Concat" -> ConcatT(ts, p[1])
    [] op \in SoftOps -> SoftMaxT(a, p[1], op = "LogSoftMax")
    [] op = "Conv2d" -> Conv2dT(a, b, p[1], p[2], p[3])
    [] op = "MaxPool2D" -> MaxPoolT(a, p[1], p[2], p[3])
    [] op = "Upsample2D" -> UpsampleT(a, p[1])
    [] op = "GlobalAveragePool2D" -> GAPT(a)
    [] op \in BroadcastOps -> BroadcastT(BroadcastFns[op], a, b, SeqToSet(p[1]), SeqToSet(p[2]))

(* values for which the operator is smooth enough to be compared *)
AllElems(t, P(_)) == \A k \in 1..Len(t.x) : P(t.x[k][1])
DomOk(op, ts) ==
  LET a == ts[1]  b == ts[Len(ts)] IN
  CASE op \in {"Log", "Log2", "Sqrt", "InverseSqrt", "Log1p"} -> AllElems(a, IsPos)
    [] op = "Inverse" -> AllElems(a, NonZero)
    [] op \in {"HadamardDiv", "BroadcastHadamardDiv", "Div", "AutoHadamardDiv"} -> AllElems(b, NonZero)
    [] op \in {"Sparsemax", "ConvRT"} -> AllElems(a, LAMBDA t : IsI(t) /\ ABS(t[1]) <= 1000)
    [] op = "XentSigmoid" -> AllElems(a, LAMBDA t : IsI(t) /\ ABS(t[1]) <= 8)
    [] op = "LogSumExp" -> AllElems(a, LAMBDA t : IsI(t) /\ ABS(t[1]) <= 12)
    [] op = "Norm" -> AllElems(a, NonZero)
    [] op \in {"Pow", "BroadcastPow"} -> AllElems(a, IsPos) /\ AllElems(b, LAMBDA t : IsI(t) /\ ABS(t[1]) <= 3)
    [] op = "LogSoftMax" -> AllElems(a, LAMBDA t : IsI(t) /\ ABS(t[1]) <= 12)
    [] op \in {"Exp", "Expm1", "SoftMax"} -> AllElems(a, LAMBDA t : Mag(t) <= 12)
    [] op \in {"Softplus", "Mish", "Tanh", "Sigmoid", "Sin", "Cos"} ->
         AllElems(a, LAMBDA t : ~IsI(t) \/ ABS(t[1]) <= 12)
    [] OTHER -> TRUE
MaxSize == 60
SizeOk(t) == Len(t.x) <= 150 /\ \A k \in 1..Len(t.x) :
               /\ Size(t.x[k][1]) <= MaxSize
               /\ Ex(t.x[k][1]) <= 64
               /\ IsI(t.x[k][1]) => ABS(t.x[k][1][1]) < 1000000
               /\ \A j \in DOMAIN t.x[k][2] : Size(t.x[k][2][j]) <= 2 * MaxSize

(* the dtype-neutral result kind of an operator *)
IsBoolResult(op, p) == \/ op \in CmpFns /\ p = <<FALSE>>
                       \/ op \in BroadcastCmp /\ p[3] = <<0>>
ValOf(t) == [k \in 1..Len(t.x) |-> t.x[k][1]]
GradOf(t, base, n) == \* gradient of the scalar t with respect to n variables base+1..base+n
  [k \in 1..n |-> IF (base + k) \in DOMAIN t.x[1][2] THEN t.x[1][2][base + k] ELSE Zero]
(***************************************************************************)
(* Applications that do not fit and must be refused when they are built:   *)
(* the parameters with which op cannot be applied to ts.                   *)
(***************************************************************************)
IllParams(op, ts) ==
  LET a == ts[1]  b == ts[Len(ts)] IN
  CASE op \in ArithFns \cup CmpFns ->
         \* a vector is taken for a row or a column of the same length
         IF /\ ~IsScalar(a) /\ ~IsScalar(b) /\ a.s # b.s /\ NElem(a.s) * NElem(b.s) > 1
            /\ ~(NElem(a.s) = NElem(b.s) /\ Len(a.s) <= 2 /\ Len(b.s) <= 2 /\ 1 \in {Len(a.s), Len(b.s)})
         THEN (IF op \in CmpFns THEN {<<TRUE>>, <<FALSE>>} ELSE {<<>>}) ELSE {}
    [] op = "Mul" ->
         IF \/ IsVec(a) /\ IsVec(b) /\ a.s # b.s
            \/ IsMat(a) /\ IsVec(b) /\ a.s[2] # b.s[1]
            \/ IsVec(a) /\ IsMat(b) /\ a.s[1] # b.s[1]
            \/ IsMat(a) /\ IsMat(b) /\ a.s[2] # b.s[1]
         THEN {<<>>} ELSE {}
    [] op = "BatchedMatMul" ->
         IF Len(a.s) = 3 /\ Len(b.s) = 3
         THEN {<<ta, tb>> \in BOOLEAN \X BOOLEAN :
                 \/ a.s[1] # b.s[1]
                 \/ (IF ta THEN a.s[2] ELSE a.s[3]) # (IF tb THEN b.s[3] ELSE b.s[2])}
         ELSE {}
    [] op = "Reshape" -> IF IsScalar(a) THEN {} ELSE {t \in ReshapeTargets(NElem(a.s) + 1) : NElem(t) # NElem(a.s)}
    [] op = "Transpose" ->
         IF Len(a.s) < 2 THEN {}
         ELSE {[k \in 1..Len(a.s) |-> 0], [k \in 1..Len(a.s) |-> k], [k \in 1..(Len(a.s) - 1) |-> k - 1]}
    [] op \in {"Sum", "Max"} -> IF IsScalar(a) THEN {} ELSE {<<Len(a.s)>>, <<Len(a.s) + 1>>}
    [] op = "Slice" -> IF IsScalar(a) THEN {} ELSE {<<<<a.s[1], a.s[1] + 1, 1>>>>, <<<<0, a.s[1] + 1, 1>>>>}
    [] op = "Concat" ->
         IF IsScalar(a) \/ IsScalar(b) \/ Len(a.s) # Len(b.s) THEN {}
         ELSE {<<ax>> : ax \in {x \in Axes(a.s) : \E i \in 1..Len(a.s) : i - 1 # x /\ a.s[i] # b.s[i]}}
    [] op \in SoftOps -> IF IsScalar(a) THEN {} ELSE {<<Len(a.s)>>}
    [] OTHER -> {}

=============================================================================
