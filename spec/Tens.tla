-------------------------------- MODULE Tens --------------------------------
(***************************************************************************)
(* Dense row-major tensors of dual numbers: [s |-> shape, x |-> elements]. *)
(* A scalar has shape <<>> and exactly one element.                        *)
(***************************************************************************)
EXTENDS Alg, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
NElem(s) == ProdFrom(s, 1)

(* row-major linear position (1-based) of a multi-index (0-based entries) *)
RECURSIVE LinFrom(_, _, _, _)
LinFrom(ix, s, i, acc) == IF i > Len(s) THEN acc ELSE LinFrom(ix, s, i + 1, acc * s[i] + ix[i])
Lin(ix, s) == LinFrom(ix, s, 1, 0) + 1
(* multi-index of a linear position *)
Unlin(k, s) == [i \in 1..Len(s) |-> ((k - 1) \div ProdFrom(s, i + 1)) % s[i]]

At(t, ix) == t.x[Lin(ix, t.s)]
Tab(s, F(_)) == Bind(s, LAMBDA z : [s |-> z, x |-> TLCEval([k \in 1..NElem(z) |-> Bind(Unlin(k, z), F)])])
Scal(v) == [s |-> <<>>, x |-> <<v>>]
IsScalar(t) == t.s = <<>>
IsVec(t) == Len(t.s) = 1
IsMat(t) == Len(t.s) = 2

Map(v, F(_)) == Bind(v, LAMBDA t : [s |-> t.s, x |-> TLCEval([k \in 1..Len(t.x) |-> F(t.x[k])])])
(* pointwise, with a scalar operand extended to the other's shape *)
Zip(x, y, F(_, _)) == Bind2(x, y, LAMBDA a, b :
  IF IsScalar(a) /\ ~IsScalar(b) THEN [s |-> b.s, x |-> TLCEval([k \in 1..Len(b.x) |-> F(a.x[1], b.x[k])])]
  ELSE IF IsScalar(b) /\ ~IsScalar(a) THEN [s |-> a.s, x |-> TLCEval([k \in 1..Len(a.x) |-> F(a.x[k], b.x[1])])]
  ELSE [s |-> a.s, x |-> TLCEval([k \in 1..Len(a.x) |-> F(a.x[k], b.x[k])])])

RECURSIVE SumFrom(_, _)
SumFrom(q, i) == IF i = Len(q) THEN q[i] ELSE sAdd(q[i], SumFrom(q, i + 1))
SumSeq(q) == Bind(q, LAMBDA v : IF Len(v) = 0 THEN C(0) ELSE SumFrom(v, 1))
RECURSIVE MaxFrom(_, _)
MaxFrom(q, i) == IF i = Len(q) THEN q[i] ELSE sMaxOf(q[i], MaxFrom(q, i + 1))
MaxSeq(q) == Bind(q, LAMBDA v : MaxFrom(v, 1))

(* dimensions of s that are not in the (0-based) axis set *)
RECURSIVE DropAxesFrom(_, _, _)
DropAxesFrom(s, A, i) ==
  IF i > Len(s) THEN <<>>
  ELSE (IF (i - 1) \in A THEN <<>> ELSE <<s[i]>>) \o DropAxesFrom(s, A, i + 1)
DropAxes(s, A) == DropAxesFrom(s, A, 1)
RECURSIVE KeepAxesFrom(_, _, _)
KeepAxesFrom(s, A, i) ==
  IF i > Len(s) THEN <<>>
  ELSE (IF (i - 1) \in A THEN <<s[i]>> ELSE <<>>) \o KeepAxesFrom(s, A, i + 1)
KeepAxes(s, A) == KeepAxesFrom(s, A, 1)
(* interleave kept and reduced indices back into a full index *)
RECURSIVE MergeFrom(_, _, _, _, _)
MergeFrom(n, A, kept, red, i) ==
  IF i > n THEN <<>>
  ELSE IF (i - 1) \in A
       THEN <<Head(red)>> \o MergeFrom(n, A, kept, Tail(red), i + 1)
       ELSE <<Head(kept)>> \o MergeFrom(n, A, Tail(kept), red, i + 1)
Reduce(t, A, R(_)) ==
  Bind2(DropAxes(t.s, A), KeepAxes(t.s, A), LAMBDA ks, rs :
    Tab(ks, LAMBDA ix :
        R([k \in 1..NElem(rs) |-> At(t, MergeFrom(Len(t.s), A, ix, Unlin(k, rs), 1))])))

SumT(t, A) == Reduce(t, A, SumSeq)
MaxT(t, A) == Reduce(t, A, MaxSeq)
MeanT(t, A) == LET n == NElem(KeepAxes(t.s, A))
               IN  Map(SumT(t, A), LAMBDA e : sDiv(e, C(n)))

Dot(a, b) == Scal(SumSeq([k \in 1..Len(a.x) |-> sMul(a.x[k], b.x[k])]))
MatVec(a, b) == Tab(<<a.s[1]>>, LAMBDA ix :
                  SumSeq([k \in 1..a.s[2] |-> sMul(At(a, <<ix[1], k - 1>>), b.x[k])]))
MatMul(a, b) == Tab(<<a.s[1], b.s[2]>>, LAMBDA ix :
                  SumSeq([k \in 1..a.s[2] |-> sMul(At(a, <<ix[1], k - 1>>), At(b, <<k - 1, ix[2]>>))]))
Outer(a, b) == Tab(<<a.s[1], b.s[1]>>, LAMBDA ix : sMul(a.x[ix[1] + 1], b.x[ix[2] + 1]))
Perm(t, p) == \* p: sequence of 0-based axes; result axis i is input axis p[i]
  LET ns == [i \in 1..Len(p) |-> t.s[p[i] + 1]]
      inv == [j \in 1..Len(p) |-> CHOOSE i \in 1..Len(p) : p[i] = j - 1]
  IN  Bind(TLCEval(inv), LAMBDA q : Tab(ns, LAMBDA ix : At(t, [j \in 1..Len(p) |-> ix[q[j]]])))
Trans2(t) == Perm(t, <<1, 0>>)
Reshape(t, s) == [s |-> s, x |-> t.x]

(* batched matrix multiplication over all but the last two axes *)
BMM(a0, b0, ta, tb) ==
  LET n == Len(a0.s)
      sw == [i \in 1..n |-> IF i = n - 1 THEN n - 1 ELSE IF i = n THEN n - 2 ELSE i - 1]
      a == IF ta THEN Perm(a0, sw) ELSE a0
      b == IF tb THEN Perm(b0, sw) ELSE b0
      s == [i \in 1..n |-> IF i = n THEN b.s[n] ELSE a.s[i]]
  IN  Tab(s, LAMBDA ix :
        SumSeq([k \in 1..a.s[n] |->
           sMul(At(a, [i \in 1..n |-> IF i = n THEN k - 1 ELSE ix[i]]),
                At(b, [i \in 1..n |-> IF i = n - 1 THEN k - 1 ELSE ix[i]]))]))

(* contraction of axes aa of a with axes bb of b (0-based sequences) *)
SeqToSet(q) == {q[i] : i \in 1..Len(q)}
TensorDot(a, b, aa, bb) ==
  LET fa == DropAxes(a.s, SeqToSet(aa))
      fb == DropAxes(b.s, SeqToSet(bb))
      cs == [i \in 1..Len(aa) |-> a.s[aa[i] + 1]]
      pos(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v
      freeA == {i \in 0..(Len(a.s) - 1) : i \notin SeqToSet(aa)}
      freeB == {i \in 0..(Len(b.s) - 1) : i \notin SeqToSet(bb)}
      rank(S, v) == Cardinality({w \in S : w < v}) + 1
      ixa(ix, c) == [i \in 1..Len(a.s) |-> IF (i - 1) \in freeA THEN ix[rank(freeA, i - 1)]
                                           ELSE c[pos(aa, i - 1)]]
      ixb(ix, c) == [i \in 1..Len(b.s) |-> IF (i - 1) \in freeB THEN ix[Len(fa) + rank(freeB, i - 1)]
                                           ELSE c[pos(bb, i - 1)]]
  IN  Tab(fa \o fb, LAMBDA ix :
        SumSeq([k \in 1..NElem(cs) |->
           sMul(At(a, ixa(ix, Unlin(k, cs))), At(b, ixb(ix, Unlin(k, cs))))]))

(* slicing: one <<start, end, step>> per leading axis; a range selecting    *)
(* exactly one element by (start, start+1) drops the axis; step <= 1 is 1   *)
SliceLen(r) == LET st == IF r[3] < 1 THEN 1 ELSE r[3]
               IN  (r[2] - r[1] + st - 1) \div st
Full(n) == <<0, n, 1, FALSE>>
(* r = <<start, end, step, drop>> *)
SliceT(t, rs) ==
  LET n == Len(t.s)
      r(i) == IF i <= Len(rs) THEN rs[i] ELSE Full(t.s[i])
      drop == {i - 1 : i \in {j \in 1..n : r(j)[4]}}
      full == [i \in 1..n |-> SliceLen(r(i))]
      ns == DropAxes(full, drop)
      st(i) == IF r(i)[3] < 1 THEN 1 ELSE r(i)[3]
      red == [i \in 1..Cardinality(drop) |-> 0]
  IN  Bind2(drop, TLCEval(red), LAMBDA dr, rd :
      Tab(ns, LAMBDA ix : Bind(MergeFrom(n, dr, ix, rd, 1), LAMBDA m :
            At(t, [i \in 1..n |-> r(i)[1] + m[i] * st(i)]))))

(* concatenation of a sequence of tensors along 0-based axis *)
RECURSIVE SumLens(_, _, _)
SumLens(ts, ax, i) == IF i > Len(ts) THEN 0 ELSE ts[i].s[ax + 1] + SumLens(ts, ax, i + 1)
RECURSIVE CatAt(_, _, _, _)
CatAt(ts, ax, ix, i) ==
  IF ix[ax + 1] < ts[i].s[ax + 1] THEN At(ts[i], ix)
  ELSE CatAt(ts, ax, [ix EXCEPT ![ax + 1] = @ - ts[i].s[ax + 1]], i + 1)
ConcatT(ts, ax) ==
  Tab([ts[1].s EXCEPT ![ax + 1] = SumLens(ts, ax, 1)], LAMBDA ix : CatAt(ts, ax, ix, 1))

(* numpy-style expansion of the listed (0-based) axes of t to shape s *)
Expand(v, s) == Bind(v, LAMBDA t :
  Tab(s, LAMBDA ix : At(t, [i \in 1..Len(s) |-> IF t.s[i] = 1 THEN 0 ELSE ix[i]])))

SoftMaxT(t, ax, lg) ==
  Bind(Map(t, LAMBDA v : sUn("Exp", v)), LAMBDA e : Bind(SumT(e, {ax}), LAMBDA sm :
    Tab(t.s, LAMBDA ix :
        IF lg THEN sSub(At(t, ix), sUn("Log", At(sm, DropAxes(ix, {ax}))))
              ELSE sDiv(At(e, ix), At(sm, DropAxes(ix, {ax}))))))
=============================================================================
