From 7c5242f8731279a5380d057b47b7794d78b20a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:39 +0000
Subject: [PATCH 001/109] fix: correct the symbolic derivative of Log2

d/dx log2(x) is 1/(x ln 2). The expression divided x by ln 2 instead of multiplying.
---
 operatorPointwise_unary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index c6338b0..20eed10 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -266,7 +266,7 @@ func log2DiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 		return nil, errors.Wrap(err, "getConst failed")
 	}
 
-	if retVal, err = HadamardDiv(x, log2); err != nil {
+	if retVal, err = HadamardProd(x, log2); err != nil {
 		return nil, errors.Wrap(err, hadamardProdFail)
 	}
 	WithGroupName(gradClust)(retVal)
-- 
2.43.0


From d99e9cca246d64d5cd6e0fdf263546118f93e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:08 +0000
Subject: [PATCH 002/109] fix: correct the derivative of InverseSqrt

The derivative of x^(-1/2) is -y^3/2. The symbolic rule divided by y^3, and the
automatic differentiation rule threw its result away.
---
 operatorPointwise_unary.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index 20eed10..67ea62d 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -468,10 +468,10 @@ func inverseSqrtDiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 	if retVal, err = Cube(y); err != nil {
 		return nil, errors.Wrapf(err, cubeFail)
 	}
-	if retVal, err = HadamardProd(two, retVal); err != nil {
+	if retVal, err = HadamardProd(gradY, retVal); err != nil {
 		return nil, errors.Wrapf(err, hadamardProdFail)
 	}
-	if retVal, err = HadamardDiv(gradY, retVal); err != nil {
+	if retVal, err = HadamardDiv(retVal, two); err != nil {
 		return nil, errors.Wrapf(err, hadamardDivFail)
 	}
 	return Neg(retVal)
@@ -490,20 +490,25 @@ func inverseSqrtDiff(x, y *Node) (err error) {
 		return errors.Wrapf(err, doFail, cb)
 	}
 
-	mul := newElemBinOp(mulOpType, x, y)
-	if d, err = mul.Do(two.boundTo, d); err != nil {
+	mul := newElemBinOp(mulOpType, y, y)
+	if d, err = mul.Do(ydv.d, d); err != nil {
 		return errors.Wrapf(err, doFail, mul)
 	}
 
-	div := newElemBinOp(divOpType, y, x)
-	if d, err = div.Do(ydv.d, d); err != nil {
+	div := newElemBinOp(divOpType, y, two)
+	if d, err = div.Do(d, two.boundTo); err != nil {
 		return errors.Wrapf(err, doFail, div)
 	}
 
 	sub := newElemBinOp(subOpType, x, y)
-	if _, err = sub.Do(xdv.d, d); err != nil {
+	if d, err = sub.UnsafeDo(xdv.d, d); err != nil {
 		return errors.Wrapf(err, doFail, sub)
 	}
+
+	// scalars are not updated in place
+	if _, ok := xdv.Value.(Scalar); ok {
+		return xdv.SetDeriv(d)
+	}
 	return nil
 }
 
-- 
2.43.0


From b16ea363d1a6e1107ea9765183b37375d2db566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:31 +0000
Subject: [PATCH 003/109] fix: give the result of Reshape its own memory

The reshaped value shared its backing array with the operand. Instructions that
later reused the result's register wrote through to the operand, so running a
graph could change the values bound to its inputs.
---
 op_tensor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0f6b09a..c0de446 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1159,10 +1159,12 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 	switch vals[0].(type) {
 	case tensor.Tensor:
 		if v, ok := vals[0].(*tensor.Dense); ok {
+			// the result must own its memory: its register may be written to by later
+			// instructions while the input is still in use.
 			if v.IsView() {
 				val = v.Materialize()
 			} else {
-				val = v.ShallowClone()
+				val = v.Clone().(*tensor.Dense)
 			}
 		} else {
 			if val, err = CloneValue(vals[0]); err != nil {
-- 
2.43.0


From aca4dedb5c2c4007a1d430dcd3b2a3b7fc3d4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:04 +0000
Subject: [PATCH 004/109] fix: execute At nodes

At was marked as a statement, so the tape machine never gave it a register and the
lisp machine never bound a value to it. It is an ordinary operation.
---
 op_tensor.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index c0de446..ce53af3 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -65,8 +65,6 @@ func (op atOp) WriteHash(h hash.Hash) {
 
 func (op atOp) Hashcode() uint32 { return simpleHash(op) }
 
-func (op atOp) isStmt() bool { return true }
-
 type sizeOp struct {
 	axis, d int
 	val     int // if we know ahead of time what the size is...
-- 
2.43.0


From f1b71944083a18110477148d7cf7e44dfac67755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:42 +0000
Subject: [PATCH 005/109] fix: accumulate the gradient in Reshape's automatic
 differentiation

The rule overwrote the gradient the operand had already received from other uses,
and reshaped the output's gradient in place.
---
 op_tensor.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index ce53af3..f3bc7c5 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1262,13 +1262,26 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if grad, err = output.Grad(); err != nil {
 		return
 	}
+	if grad, err = CloneValue(grad); err != nil {
+		return errors.Wrapf(err, cloneFail, grad)
+	}
 	T := grad.(tensor.Tensor)
 	if err = T.Reshape(op.from...); err != nil {
 		return
 	}
+	var d Value = T
+	if T.IsScalar() {
+		d, _ = anyToScalar(T.ScalarValue())
+	}
+
+	// the input may be used elsewhere: add to the gradient it has already got
 	input := inputs[0]
 	dv := input.boundTo.(*dualValue)
-	return dv.SetDeriv(T)
+	add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(dv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return dv.SetDeriv(d)
 }
 
 /* PRIVATE FUNCTIONS */
-- 
2.43.0


From f638c9a0fe12812bcd271b57e5dd6ec31bb8c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:24 +0000
Subject: [PATCH 006/109] fix: do not panic when a scalar and a one-element
 tensor are combined in place

---
 op_math.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/op_math.go b/op_math.go
index 36cd06d..30fd708 100644
--- a/op_math.go
+++ b/op_math.go
@@ -330,13 +330,15 @@ func (op elemBinOp) UnsafeDo(inputs ...Value) (retVal Value, err error) {
 
 	ashp, bshp := a.Shape(), b.Shape()
 
-	if !ashp.Eq(bshp) && ashp.TotalSize() == bshp.TotalSize() {
+	aT, aIsTensor := a.(tensor.Tensor)
+	bT, bIsTensor := b.(tensor.Tensor)
+	if aIsTensor && bIsTensor && !ashp.Eq(bshp) && ashp.TotalSize() == bshp.TotalSize() {
 		// temporarily reshape
-		var toReshape tensor.Tensor = b.(tensor.Tensor)
+		toReshape := bT
 		as := a
 		backup := b.Shape()
 		if bshp.Dims() < ashp.Dims() {
-			toReshape = a.(tensor.Tensor)
+			toReshape = aT
 			as = b
 			backup = a.Shape()
 		}
-- 
2.43.0


From 768d3e1c7d788ff863f349159556b43c369301dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:27 +0000
Subject: [PATCH 007/109] fix: keep accumulated gradients of scalar operands
 out of the elementwise sum

When a scalar is combined with a tensor, its gradient is the sum of the elementwise
gradients. The gradient it had already accumulated was added once per element, and the
output's gradient was handed back to the tensor pool while still in use.
---
 op_math.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/op_math.go b/op_math.go
index 30fd708..dc9e468 100644
--- a/op_math.go
+++ b/op_math.go
@@ -251,6 +251,19 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 		return
 	}
 
+	// A scalar operand of a tensor result gets the sum of the elementwise gradients. What it
+	// has already accumulated must be kept out of that sum, and added once, afterwards.
+	var accum [2]Scalar
+	if !output.IsScalar() {
+		for i, in := range inputs {
+			indv := in.boundTo.(*dualValue)
+			if d, ok := indv.d.(Scalar); ok && in.IsScalar() {
+				accum[i] = d
+				indv.d = zero(d.Dtype())
+			}
+		}
+	}
+
 	b := op.ʘBinaryOperator.binOpType()
 	if err = ʘBinOpDiffFns[b](ctx, inputs[0], inputs[1], output); err != nil {
 		if _, ok := err.(AutoDiffError); !ok {
@@ -260,11 +273,10 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	}
 
 	//handle scalar gradients
-	for _, in := range inputs {
+	for i, in := range inputs {
 		indv := in.boundTo.(*dualValue)
 		if _, ok := indv.d.(Scalar); in.IsScalar() && !ok {
 			indvdT := indv.d.(tensor.Tensor)
-			defer returnTensor(indvdT)
 
 			var d Value
 			var t tensor.Tensor
@@ -276,6 +288,14 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 			d, _ = anyToScalar(t.ScalarValue())
 			indv.SetDeriv(d)
 		}
+		if accum[i] != nil {
+			add := newEBOByType(addOpType, TypeOf(accum[i]), TypeOf(indv.d))
+			var d Value
+			if d, err = add.Do(accum[i], indv.d); err != nil {
+				return errors.Wrapf(err, doFail, add)
+			}
+			indv.SetDeriv(d)
+		}
 	}
 	return
 }
-- 
2.43.0


From 62b30acc5f19f970c6731e596bde058b4512b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:28 +0000
Subject: [PATCH 008/109] fix: keep the shape of one-element slices

Slicing a tensor down to a single element along only some of its axes
produced a scalar at run time, although the node's shape still has
dimensions. The operations that followed then failed or panicked.
---
 op_tensor.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index f3bc7c5..e7d269d 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -593,9 +593,21 @@ func (op *sliceOp) Do(inputs ...Value) (retVal Value, err error) {
 		if v, err = T.Slice(slices...); err != nil {
 			return nil, errors.Wrapf(err, sliceFail, slices)
 		}
-		if v.IsScalar() {
+		var shp tensor.Shape
+		if shp, err = op.InferShape(t.Shape()); err != nil {
+			return nil, errors.Wrapf(err, sliceFail, slices)
+		}
+		switch {
+		case v.IsScalar() && !shp.IsScalar():
+			// a one-element result still has the dimensions that were not sliced away
+			T := tensor.New(tensor.FromScalar(v.ScalarValue()))
+			if err = T.Reshape(shp...); err != nil {
+				return nil, errors.Wrapf(err, sliceFail, slices)
+			}
+			retVal = T
+		case v.IsScalar():
 			retVal, _ = anyToScalar(v.ScalarValue())
-		} else {
+		default:
 			retVal = v.(tensor.View).Materialize()
 		}
 	case Scalar:
-- 
2.43.0


From 268462a943e7fc76786dff696db1776fdfbefa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:55 +0000
Subject: [PATCH 009/109] fix: tell SoftMax and LogSoftMax apart when looking
 for equal nodes

Both hashed to the same code, so asking for one after the other on the
same input returned the node of the first.
---
 op_softmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index 42080f9..4244c63 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -49,7 +49,7 @@ func (op *softmaxOp) ReturnsPtr() bool { return false }
 
 func (op *softmaxOp) CallsExtern() bool { return false }
 
-func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v}()", op.axis) }
+func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From c459a274cac1de6cb933fa85eb107535dacf3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:52 +0000
Subject: [PATCH 010/109] fix: hash the whole slice range

Start, end and step were cut down to a byte, so slices that start 256
elements apart were taken to be the same node.
---
 op_tensor.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index e7d269d..317a28e 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -632,13 +632,13 @@ func (op sliceOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
@@ -833,13 +833,13 @@ func (op sliceIncrOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 6366868858a7a9ae22f6dfdf5e45f6d2e4483dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:08 +0000
Subject: [PATCH 011/109] fix: make Reset of the lisp machine start from the
 first node

The nodes are executed from index 0 upwards, but Reset put the position
at the last node. The next run therefore only executed that node.
---
 vm_genera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm_genera.go b/vm_genera.go
index 7c1914b..2bab423 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -108,7 +108,7 @@ func (m *lispMachine) allowSetRootGrad()    { m.runFlags |= uint16(1) << spare3
 func (m *lispMachine) disallowSetRootGrad() { m.runFlags &= (^(uint16(1) << spare3)) }
 
 func (m *lispMachine) Reset() {
-	m.fwd = len(m.sorted) - 1
+	m.fwd = 0
 	m.bwd = len(m.q) - 1
 }
 
-- 
2.43.0


From 8ab307330cca9e5f277f110e5fe1975ea5bb1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:22 +0000
Subject: [PATCH 012/109] fix: stop the lisp machine after an error

After reporting the error the goroutine carried on: it waited for ever on
a channel nobody reads, or ran the backward pass of a failed run while
the caller already had the error.
---
 vm_genera.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 2bab423..c0bcc9b 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -269,6 +269,7 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 
 	if err != nil {
 		errChan <- err
+		return
 	}
 
 	// send a synchronous signal, do all (if any) CUDA work before continuing with backprop
@@ -289,6 +290,7 @@ backward:
 	}
 	if err != nil {
 		errChan <- err
+		return
 	}
 	doneChan <- struct{}{}
 }
-- 
2.43.0


From a94f7acacacfcb457ec698b2f9d591ee142dfcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:37 +0000
Subject: [PATCH 013/109] fix: use absolute values in norms of odd order

The p-norm sums the p-th powers of the absolute values. Without taking
them first, Norm gave wrong (even negative) results for odd p.
---
 operations.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operations.go b/operations.go
index a437d36..75c665c 100644
--- a/operations.go
+++ b/operations.go
@@ -309,6 +309,12 @@ func Norm(a *Node, axis, p int) (retVal *Node, err error) {
 		return nil, errors.New("Cannot norm a non-floating point type")
 	}
 
+	if p%2 != 0 {
+		if a, err = Abs(a); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
+	}
+
 	if retVal, err = Pow(a, b); err == nil {
 		if retVal, err = Sum(retVal, axis); err == nil {
 			if retVal, err = Pow(retVal, inv); err != nil {
-- 
2.43.0


From 2667eb54353b53acb9830c42d4671287abc50ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:32 +0000
Subject: [PATCH 014/109] fix: differentiate Concat along the right axis

The automatic derivative always took slices of the first axis. For any
other axis it failed, or the gradients were silently left at zero because
the error of the addition was ignored.
---
 op_tensor.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 317a28e..f16a01d 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1114,17 +1114,26 @@ func (op concatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) erro
 		idv := in.boundTo.(*dualValue)
 		idvd := idv.d.(tensor.Tensor)
 
-		sliced, err := odvd.Slice(S(start, end))
+		// slice along the axis of the concatenation
+		slices := make([]tensor.Slice, op.axis+1)
+		slices[op.axis] = S(start, end)
+		view, err := odvd.Slice(slices...)
 		if err != nil {
 			return err
 		}
+		sliced := view.(tensor.View).Materialize()
+		if err = sliced.Reshape(idvd.Shape()...); err != nil { // keep dims
+			return err
+		}
 
 		// TODO: fix VAdd hack
 		// add to odvd
 		switch st := sliced.(type) {
 		case *tensor.Dense:
 			d := idvd.(*tensor.Dense)
-			d.Add(st, tensor.UseUnsafe())
+			if _, err = d.Add(st, tensor.UseUnsafe()); err != nil {
+				return err
+			}
 		default:
 			return errors.Errorf(nyiTypeFail, "DoDiff (hack) ", st)
 		}
-- 
2.43.0


From fe800a9f9306bd593a21749373436285543cd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:48 +0000
Subject: [PATCH 015/109] fix: correct the derivatives of OuterProd
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

For z = x yᵀ the gradients are (dz)·y and (dz)ᵀ·x. The symbolic rule used
the wrong operands, and the automatic one multiplied vectors with
matrices element by element and failed.
---
 operatorLinAlg.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index 69a4e68..a74f53c 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -261,8 +261,8 @@ func vecDotDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err e
 
 func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes, err error) {
 	var dzdx, dzdy *Node
-	if dzdx, err = Mul(x, gradZ); err == nil {
-		if dzdy, err = Mul(y, gradZ); err == nil {
+	if dzdx, err = Mul(gradZ, y); err == nil {
+		if dzdy, err = Mul(x, gradZ); err == nil {
 			retVal = Nodes{dzdx, dzdy}
 		} else {
 			return nil, errors.Wrap(err, "Failed to carry Mul()")
@@ -276,14 +276,16 @@ func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes,
 func outerProdDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err error) {
 	xdv, ydv, zdv := getDV3(x, y, z)
 
-	mul := newElemBinOp(mulOpType, x, z)
-	err = mul.IncrDo(xdv.d, xdv.Value, zdv.d)
-	err = mul.IncrDo(xdv.d, ydv.Value, zdv.d)
+	op := linAlgBinOp{
+		āBinaryOperator: matVecMulOperator,
+	}
+	err = op.IncrDo(xdv.d, zdv.d, ydv.Value)
 	if err = checkErrSetDeriv(err, xdv); err != nil {
 		return errors.Wrapf(err, autodiffFail, x)
 	}
 
-	err = mul.IncrDo(ydv.d, ydv.Value, zdv.d)
+	op.transA = true
+	err = op.IncrDo(ydv.d, zdv.d, xdv.Value)
 	if err = checkErrSetDeriv(err, ydv); err != nil {
 		return errors.Wrapf(err, autodiffFail, x)
 	}
-- 
2.43.0


From 6cdcfad4701688c8daba62bef4e053757b784abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:04 +0000
Subject: [PATCH 016/109] fix: do not panic when differentiating through an op
 without derivative

Operators that are not symbolically differentiable have no list of
differentiable inputs, and the forward analysis indexed into it.
---
 differentiation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/differentiation.go b/differentiation.go
index 3dd4655..6e0e766 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -35,8 +35,7 @@ func forwardDiffAnalysis(outputs, sortedNodes Nodes) (retVal NodeSet, err error)
 		if diffSet.Contains(n) && !n.isInput() {
 			diffs := n.diffWRT()
 			for j, child := range n.children {
-				d := diffs[j]
-				if d {
+				if j < len(diffs) && diffs[j] {
 					symdiffLogf("Adding %x to  differentiable set", child.ID())
 					diffSet.Add(child)
 				}
-- 
2.43.0


From 6c5886976a5d38a03713c98c1bb7f71a151a4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:02 +0000
Subject: [PATCH 017/109] fix: comparisons that yield bools no longer overwrite
 an operand

Written over an operand the result kept the operand's data type.
---
 op_math.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/op_math.go b/op_math.go
index dc9e468..d83202c 100644
--- a/op_math.go
+++ b/op_math.go
@@ -303,6 +303,10 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 func (op elemBinOp) ReturnsPtr() bool { return true }
 
 func (op elemBinOp) OverwritesInput() int {
+	if !op.isArith() && !op.retSame {
+		return -1 // the result is made of bools, which the operands cannot hold
+	}
+
 	if _, ok := op.arg0.(TensorType); ok {
 		return 0
 	}
-- 
2.43.0


From 1351be4d92b8fb522a5a49ccc06fac041d4d7729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:16 +0000
Subject: [PATCH 018/109] fix: the sign of a zero scalar is zero, as it is for
 tensors

---
 math.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math.go b/math.go
index f11f7db..6e19525 100644
--- a/math.go
+++ b/math.go
@@ -11,6 +11,9 @@ import (
 
 /* UNARY OPS */
 func _signf32(x float32) float32 {
+	if x == 0 {
+		return 0
+	}
 	if math32.Signbit(x) {
 		return float32(-1.0)
 	}
@@ -18,6 +21,9 @@ func _signf32(x float32) float32 {
 }
 
 func _signf64(x float64) float64 {
+	if x == 0 {
+		return 0
+	}
 	if math.Signbit(x) {
 		return -1.0
 	}
-- 
2.43.0


From 484cf6ab7594c6f09b138f7f33354c12912e0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:03 +0000
Subject: [PATCH 019/109] fix: bind derivatives of nodes that have no value yet
 after the run

A derivative that is also a constant of the expression is executed before
the node it belongs to. Binding it panicked. The queue of postponed bindings
is now emptied after each run, so that they are not repeated by the next.
---
 vm_tape.go        |  4 +++-
 vm_tape_nocuda.go | 41 +++++++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/vm_tape.go b/vm_tape.go
index 4f3aa0d..d45f9cf 100644
--- a/vm_tape.go
+++ b/vm_tape.go
@@ -238,7 +238,9 @@ func (m *tapeMachine) RunAll() (err error) {
 			if err != nil {
 				return err
 			}
-			for _, closure := range m.closureQueue {
+			closures := m.closureQueue
+			m.closureQueue = nil
+			for _, closure := range closures {
 				if err := closure(); err != nil {
 					return err
 				}
diff --git a/vm_tape_nocuda.go b/vm_tape_nocuda.go
index af8606e..d6d2e96 100644
--- a/vm_tape_nocuda.go
+++ b/vm_tape_nocuda.go
@@ -113,6 +113,7 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	// this is a gradient node then, we should also bind the value to the node's dualValue
 	if m.bindDV() && node.derivOf != nil {
 		for _, src := range node.derivOf {
+			src := src // closures may outlive this iteration
 			if len(m.bindNodesDV) > 0 && !m.bindNodesDV.Contains(src) {
 				continue
 			}
@@ -129,25 +130,29 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 					return nil
 				}
 				m.closureQueue = append(m.closureQueue, closure)
-			default:
-				// TODO HERE
+			case src.boundTo == nil:
 				/*
-				   e.g. problem
+				   e.g.
 				   z = y * (x + 1)
 
 				   Here, 1 is a constant. But 1 comes early in the expression graph.
 				   The final gradient is also 1, so 1 will also be the derivOf `z`
 				   But because the graph is sorted, the 1 node will be walked before
-				   the `z` node, and this part will cause a panic, as `z` will have no `Value`
-				   associated with it yet.
+				   the `z` node, which has no `Value` associated with it yet.
+				   So the derivative is bound once everything has been executed.
 				*/
-				dv := dvUnit(src.boundTo)
-				add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(v))
-
-				if d, err := add.UnsafeDo(dv.d, v); err == nil {
-					dv.SetDeriv(d)
-					src.bind(dv)
-				} else {
+				dval, err := CloneValue(v)
+				if err != nil {
+					return err
+				}
+				m.closureQueue = append(m.closureQueue, func() error {
+					if src.boundTo == nil {
+						return nil // not part of the program
+					}
+					return accumDeriv(src, dval)
+				})
+			default:
+				if err := accumDeriv(src, v); err != nil {
 					return err
 				}
 			}
@@ -163,6 +168,18 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	return nil
 }
 
+// accumDeriv adds v to the derivative bound to n.
+func accumDeriv(n *Node, v Value) error {
+	dv := dvUnit(n.boundTo)
+	add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(v))
+	d, err := add.UnsafeDo(dv.d, v)
+	if err != nil {
+		return err
+	}
+	dv.SetDeriv(d)
+	return n.bind(dv)
+}
+
 func (instr deviceTransport) exec(m *tapeMachine) error {
 	return nil
 }
-- 
2.43.0


From 59401c01444d796554b3ebac0c66d44d7d506658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:19 +0000
Subject: [PATCH 020/109] fix: symbolic derivative of repeat has the shape of
 the repeated node

The summed gradient lost the repeated axis. Adding it to another gradient
of the same node failed with a shape mismatch.
---
 op_tensor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/op_tensor.go b/op_tensor.go
index f16a01d..b534760 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -250,6 +250,12 @@ func (op repeatOp) DiffWRT(i int) []bool {
 func (op repeatOp) SymDiff(inputs Nodes, output, gradNode *Node) (retVal Nodes, err error) {
 	var n *Node
 	if n, err = Sum(gradNode, op.along); err == nil {
+		// the sum drops the repeated axis, the repeated node has it
+		if shp := inputs[0].Shape(); !n.Shape().Eq(shp) && n.Shape().TotalSize() == shp.TotalSize() {
+			if n, err = Reshape(n, shp.Clone()); err != nil {
+				return nil, err
+			}
+		}
 		n.setGroup(gradClust)
 	}
 	retVal = make(Nodes, len(inputs))
-- 
2.43.0


From 8edb38fe575f4fcc2076805f9ef03ddbc58e75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:56 +0000
Subject: [PATCH 021/109] fix: refuse products of vectors, matrices and batches
 whose shapes do not fit

The shape inference accepted vectors of different lengths, a vector as long
as the wrong axis of the matrix and batches with different inner dimensions.
The mistake only showed when the graph was run.
---
 op_math.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/op_math.go b/op_math.go
index d83202c..9c8130f 100644
--- a/op_math.go
+++ b/op_math.go
@@ -605,18 +605,14 @@ func (op linAlgBinOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err e
 			x = transpose2D(x)
 			defer tensor.ReturnInts(x)
 		}
-		if x[0] != y[0] && x[1] != y[0] {
+		if x[1] != y[0] {
 			return nil, errors.Errorf("Incompatible shapes: %v and %v", x, y)
 		}
-
-		switch {
-		case x[0] == y[0]:
-			retVal = tensor.Shape{x[1]}
-		case x[1] == y[0]:
-			retVal = tensor.Shape{x[0]}
-		}
-
+		retVal = tensor.Shape{x[0]}
 	case vecDotOperator:
+		if x.TotalSize() != y.TotalSize() {
+			return nil, errors.Errorf("Incompatible shapes: %v and %v", x, y)
+		}
 		retVal = scalarShape
 	case outerProdOperator:
 		// outerprods only handles vec x vec for now
@@ -641,6 +637,9 @@ func (op linAlgBinOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err e
 			innerY = transpose2D(innerY)
 			defer tensor.ReturnInts(innerY)
 		}
+		if innerX[1] != innerY[0] {
+			return nil, errors.Errorf("Inner dimensions of %v and %v do not match up", x, y)
+		}
 		retVal = append(outerX, innerX[0], innerY[1])
 	}
 	return
-- 
2.43.0


From 1943203ed8faaf20a7adb73658407d3493a398aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:56 +0000
Subject: [PATCH 022/109] fix: refuse a softmax along an axis the operand does
 not have

---
 op_softmax.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_softmax.go b/op_softmax.go
index 4244c63..f666601 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -56,6 +56,9 @@ func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 func (op *softmaxOp) String() string { return fmt.Sprintf("Softmax{%d, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
+	if shp := inputs[0].(tensor.Shape); op.axis >= shp.Dims() {
+		return nil, errors.Errorf("axis %d is out of range for shape %v", op.axis, shp)
+	}
 	return inputs[0].(tensor.Shape), nil
 }
 
-- 
2.43.0


From f2794eff8d133eaa5dfcf857d826026c7a3716e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:56 +0000
Subject: [PATCH 023/109] fix: refuse slices that end outside of the axis

Building one over an axis of size one panicked.
---
 op_tensor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_tensor.go b/op_tensor.go
index b534760..9946e4c 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -528,6 +528,9 @@ func (op *sliceOp) Type() hm.Type {
 
 func (op *sliceOp) InferShape(inputs ...DimSizer) (s tensor.Shape, err error) {
 	input := inputs[0].(tensor.Shape)
+	if op.Slice != nil && op.along < input.Dims() && op.Slice.End() > input[op.along] {
+		return nil, errors.Errorf("slice %v:%v is out of bounds for axis %d of shape %v", op.Slice.Start(), op.Slice.End(), op.along, input)
+	}
 	slices := make([]tensor.Slice, op.along+1)
 	slices[op.along] = op.Slice
 
-- 
2.43.0


From 08d671cfe711f75791e36e9c4f976c8c6bf2d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:49 +0000
Subject: [PATCH 024/109] fix: accumulating with one-element tensors no longer
 overwrites an operand

Package tensor writes over the left operand when it increments with tensors
of one element. On the machine that differentiates automatically this changed
inputs and gave wrong gradients.
---
 operatorPointwise_binary.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index ffb03d0..25fc3e8 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -330,7 +330,8 @@ func (o tBinOp) UsePreallocDo(v Value, retSame bool, inputs ...Value) (retVal Va
 
 func (o tBinOp) IncrDo(incr Value, retSame bool, inputs ...Value) (err error) {
 	reuse, ok := incr.(tensor.Tensor)
-	if ok {
+	// package tensor overwrites the left operand when it increments with one-element tensors
+	if left := inputs[0]; ok && !(left.Shape().IsScalarEquiv() && !left.Shape().IsScalar()) {
 		_, err = o.do(inputs, tensor.WithIncr(reuse))
 		return
 	}
-- 
2.43.0


From 939b1de7d684bcff9708f874641e18fca7e01fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:28 +0000
Subject: [PATCH 025/109] fix: gradients of batched products whose result is a
 batch of 1x1 matrices

---
 operatorLinAlg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index a74f53c..d278f8f 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -486,6 +486,9 @@ func batchedMatMul(a, b, c tensor.Tensor, transA, transB, incr bool) (retVal ten
 		if err := reshape("b", bs, innerB...); err != nil {
 			return nil, err
 		}
+		if err := reshape("c", cs, innerA[0], innerB[1]); err != nil {
+			return nil, err
+		}
 
 		var fo tensor.FuncOpt
 		if incr {
-- 
2.43.0


From ced145c47fb70c91ad96151dd80a8a4ff118131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:14:35 +0000
Subject: [PATCH 026/109] fix: automatic derivative of a tensor to the power of
 a scalar

The products were set up for the types of other operands.
---
 operatorPointwise_binary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index 25fc3e8..bd8f2c9 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -961,11 +961,12 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 		return
 	}
 
-	mul := newEBOByType(mulOpType, TypeOf(ydv.Value), TypeOf(xdv.Value))
+	mul := newEBOByType(mulOpType, TypeOf(pow), TypeOf(ydv.Value))
 	if pow, err = mul.UnsafeDo(pow, ydv.Value); err != nil {
 		return
 	}
 
+	mul = newEBOByType(mulOpType, TypeOf(pow), TypeOf(zdv.d))
 	if err = mul.IncrDo(xdv.d, pow, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
@@ -982,9 +983,11 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 	if logx, err = logOp.Do(xdv.Value); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(zdv.Value), TypeOf(logx))
 	if logx, err = mul.Do(zdv.Value, logx); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(logx), TypeOf(zdv.d))
 	if err = mul.IncrDo(ydv.d, logx, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
-- 
2.43.0


From 60f6a1e39c0742f5f2b93b23e98245754469d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:13 +0000
Subject: [PATCH 027/109] fix: average pooling divides by the kernel area and
 spreads its gradient

The window sum was divided by the width of the input instead of the number of
elements of the kernel. The derivative moved gradient to the last element of
each window and then smoothed it. AveragePool1D computed a maximum.
---
 op_avg_pool.go | 42 +++++++-----------------------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index a142f97..9dd68bf 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -12,7 +12,7 @@ import (
 
 // AveragePool1D applies a average pool on the node x.
 func AveragePool1D(x *Node, kernel, pad, stride int) (*Node, error) {
-	return MaxPool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
+	return AveragePool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
 }
 
 // AveragePool2D applies the average operation to the given input
@@ -319,7 +319,7 @@ func (op *avgPoolOp) f32s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float32(inW)
+					outData[poolIndex] /= float32(op.h * op.w)
 				}
 			}
 			// skip by strides
@@ -370,7 +370,7 @@ func (op *avgPoolOp) f64s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float64(inW)
+					outData[poolIndex] /= float64(op.h * op.w)
 				}
 			}
 			// skip by strides
@@ -518,15 +518,6 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -534,18 +525,13 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float32(0.0)
+					share := outDiffData[ph*pooledW+pw] / float32(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += share
 						}
 					}
-
-					inDiffData[poolIndex] = total / float32(inW)
 				}
 			}
 
@@ -578,15 +564,6 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -594,18 +571,13 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float64(0.0)
+					share := outDiffData[ph*pooledW+pw] / float64(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += share
 						}
 					}
-
-					inDiffData[poolIndex] = total / float64(inW)
 				}
 			}
 
-- 
2.43.0


From 01b8638cf2be5baac1856f7aea1ef3c622de09f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:13 +0000
Subject: [PATCH 028/109] fix: LogSumExp computes log(sum(exp(a))) along the
 axis

The maximum was added before taking the logarithm, the result was summed a
second time, and operands with more than one axis were refused.
---
 operations.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/operations.go b/operations.go
index 75c665c..d4bf439 100644
--- a/operations.go
+++ b/operations.go
@@ -166,17 +166,27 @@ func unaryOpNode(op Op, a *Node) (retVal *Node, err error) {
 
 // LogSumExp performs addition in the log domain
 func LogSumExp(a *Node, axis int) (retVal *Node, err error) {
-	var max, exp, sum, logSum *Node
+	var max, shifted, exp, sum, logSum *Node
 	if max, err = Max(a, axis); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	if retVal, err = Sub(a, max); err == nil {
-		if exp, err = Exp(retVal); err == nil {
+	if a.Dims() > 1 {
+		// the maximum has to be subtracted along the axis
+		keptShape := a.Shape().Clone()
+		keptShape[axis] = 1
+		var kept *Node
+		if kept, err = Reshape(max, keptShape); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
+		shifted, err = BroadcastSub(a, kept, nil, []byte{byte(axis)})
+	} else {
+		shifted, err = Sub(a, max)
+	}
+	if err == nil {
+		if exp, err = Exp(shifted); err == nil {
 			if sum, err = Sum(exp, axis); err == nil {
-				if sum, err = Add(sum, max); err == nil {
-					if logSum, err = Log(sum); err == nil {
-						return Sum(logSum, axis)
-					}
+				if logSum, err = Log(sum); err == nil {
+					return Add(logSum, max)
 				}
 			}
 		}
-- 
2.43.0


From b20908bfdd98ba3e1d1423f77b8a3fdf51c87c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:13 +0000
Subject: [PATCH 029/109] fix: KeepDims keeps the dimensions of row and column
 vectors

A vector compares equal to a row or column of the same length, so the result
was returned with one dimension less.
---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index df3f76d..f766b1a 100644
--- a/shape.go
+++ b/shape.go
@@ -84,7 +84,7 @@ func KeepDims(a *Node, expandLeft bool, fn func(a *Node) (*Node, error)) (*Node,
 
 	// happy path = quick exit
 	newShape := b.Shape()
-	if newShape.Eq(oshape) {
+	if newShape.Dims() == adims && newShape.Eq(oshape) {
 		return b, nil
 	}
 
-- 
2.43.0


From 718a0610ff8d9a6c229eb09d53da3d473eab57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:13 +0000
Subject: [PATCH 030/109] fix: ConvType of a scalar yields a scalar

The value had shape (1) although the node is a scalar.
---
 op_types.go | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/op_types.go b/op_types.go
index 5d9f6e6..d4efb7c 100644
--- a/op_types.go
+++ b/op_types.go
@@ -103,11 +103,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float64:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Float32 && op.to == tensor.Int:
 		switch aData := a.Data().(type) {
@@ -117,11 +113,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float32:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float64:
 		switch aData := a.Data().(type) {
@@ -131,11 +123,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float64(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float64),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float64{float64(aData)}),
-			)
+			retVal = NewF64(float64(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float32:
 		switch aData := a.Data().(type) {
@@ -145,11 +133,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float32(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float32),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float32{float32(aData)}),
-			)
+			retVal = NewF32(float32(aData))
 		}
 	default:
 		return nil, errors.Errorf("Cannot do conversion %v", op.Type())
-- 
2.43.0


From 533aad67a531a5bf6bb32905ee589c6b628e3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:07 +0000
Subject: [PATCH 031/109] fix: automatic derivative of GroupNorm

The value of the output was used in place of its gradient.
---
 op_group_norm.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 2bdd7d1..8dba67d 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -472,19 +472,13 @@ func (op *GroupNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 	idvd := idv.d.(*tensor.Dense)
 	diffOp := &groupNormDiffOp{op}
 
-	result, err := diffOp.Do(idv.Value, odv.Value, odv.d)
+	result, err := diffOp.Do(idv.Value, odv.d)
 	if err != nil {
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
-
-	return nil
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From c0cf7223d64c43fcc9841ac92dac7cb80f132dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:07 +0000
Subject: [PATCH 032/109] fix: automatic derivative of Sparsemax

The derivative always failed because it asked for two operands.
---
 op_sparsemax.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/op_sparsemax.go b/op_sparsemax.go
index e1aebac..9165f42 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -309,32 +309,27 @@ func (op *sparsemaxOp) float64sparseMax(inputTensor tensor.Tensor) (interface{},
 
 // DoDiff calculates the diff and sets its value to the output node. Implementation for ADOp interface.
 func (op *sparsemaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
-	if len(inputs) != 2 {
-		return fmt.Errorf("SparsemaxOp.DoDiff needs 2 arguments")
+	if len(inputs) != 1 {
+		return fmt.Errorf("SparsemaxOp.DoDiff needs 1 argument")
 	}
 
 	odv := output.boundTo.(*dualValue)
-	odvd := odv.Value.(tensor.Tensor)
+	idv := inputs[0].boundTo.(*dualValue)
+	idvd := idv.d.(*tensor.Dense)
 	diffOp := &sparsemaxDiffOp{}
 
-	result, err := diffOp.Do(odvd, inputs[1].boundTo)
+	result, err := diffOp.Do(odv.Value, odv.d)
 	if err != nil {
 		return err
 	}
 
-	err = result.(*tensor.Dense).Reshape(odvd.Shape()...)
+	err = result.(*tensor.Dense).Reshape(idvd.Shape()...)
 	if err != nil {
 		return err
 	}
 
-	sum, err := odvd.(*tensor.Dense).Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
-
-	return nil
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 77e883f4cb67cf6b2d1541a499a4c0a0da03fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:07 +0000
Subject: [PATCH 033/109] fix: automatic derivative of ByIndices

The derivative always failed because the gradient was not passed on.
---
 op_by_indices.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/op_by_indices.go b/op_by_indices.go
index 79a838f..0c9b30b 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -102,28 +102,24 @@ func (op *byIndicesOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 	}
 
 	odv := output.boundTo.(*dualValue)
-	odvd := odv.Value.(tensor.Tensor)
+	idv := inputs[0].boundTo.(*dualValue)
+	idvd := idv.d.(*tensor.Dense)
+	indices := inputs[1].Value()
 
 	diffOp := &byIndicesOpDiffOp{op}
 
-	result, err := diffOp.Do(inputs[0].boundTo, inputs[1].boundTo)
+	result, err := diffOp.Do(idv.Value, odv.d, indices)
 	if err != nil {
 		return err
 	}
 
-	err = result.(*tensor.Dense).Reshape(odvd.Shape()...)
+	err = result.(*tensor.Dense).Reshape(idvd.Shape()...)
 	if err != nil {
 		return err
 	}
 
-	sum, err := odvd.(*tensor.Dense).Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
-
-	return nil
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From cebb04ff8ec3d8e47ae0835fc74dcc6b7a0da3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:47 +0000
Subject: [PATCH 034/109] fix: DiagFlat is a matrix of the element type of its
 operand

Its type was a matrix whose elements are tensors, so that most operators
could not be applied to it.
---
 op_nondiff.go         | 10 ++++++----
 operations_nondiff.go |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/op_nondiff.go b/op_nondiff.go
index 7ef9917..e2bdc25 100644
--- a/op_nondiff.go
+++ b/op_nondiff.go
@@ -8,7 +8,9 @@ import (
 	"gorgonia.org/tensor"
 )
 
-type diagFlatOp struct{}
+type diagFlatOp struct {
+	d int // dimensions of the input
+}
 
 /* Graph Building Related Methods */
 
@@ -18,9 +20,9 @@ func (op diagFlatOp) Arity() int { return 1 }
 // Informs the type of the Op (not the node). This will be used by the type system to infer the final type of the node
 func (op diagFlatOp) Type() hm.Type {
 	a := hm.TypeVariable('a')
-	b := hm.TypeVariable('a')
-	T := makeTensorType(2, b)
-	return hm.NewFnType(a, T)
+	in := makeTensorType(op.d, a)
+	T := makeTensorType(2, a)
+	return hm.NewFnType(in, T)
 }
 
 // returns the output shape as a function of the inputs
diff --git a/operations_nondiff.go b/operations_nondiff.go
index 9aea5c0..a2d8f70 100644
--- a/operations_nondiff.go
+++ b/operations_nondiff.go
@@ -9,5 +9,5 @@ func DiagFlat(a *Node) (*Node, error) {
 	if a.Shape().IsScalarEquiv() {
 		return nil, errors.Errorf("Cannot perform DiagFlat on a scalar equivalent node")
 	}
-	return ApplyOp(diagFlatOp{}, a)
+	return ApplyOp(diagFlatOp{d: a.Dims()}, a)
 }
-- 
2.43.0


From b6f0f78d60ba2b21490b84b973c4543b91226cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:51 +0000
Subject: [PATCH 035/109] fix: Difference and Intersect of nodes leave their
 operands alone

Both appended to the receiver and worked in place. When the receiver's
memory had room for the other list, its elements were overwritten.
---
 collections.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/collections.go b/collections.go
index 5f053cf..9938b23 100644
--- a/collections.go
+++ b/collections.go
@@ -114,20 +114,27 @@ func (ns Nodes) Format(s fmt.State, c rune) {
 	}
 }
 
+// pivoted returns a new slice made of the sorted elements of ns, followed by the sorted elements of other.
+// The operands are left as they are.
+func (ns Nodes) pivoted(other Nodes) Nodes {
+	s := make(Nodes, 0, len(ns)+len(other))
+	s = append(s, ns...)
+	s = append(s, other...)
+	sort.Sort(s[:len(ns)])
+	sort.Sort(s[len(ns):])
+	return s
+}
+
 // Difference is ns - other. Bear in mind it is NOT commutative
 func (ns Nodes) Difference(other Nodes) Nodes {
-	sort.Sort(ns)
-	sort.Sort(other)
-	s := append(ns, other...)
+	s := ns.pivoted(other)
 	count := set.Diff(s, len(ns))
 	return s[:count]
 }
 
 // Intersect performs an intersection with other Nodes
 func (ns Nodes) Intersect(other Nodes) Nodes {
-	sort.Sort(ns)
-	sort.Sort(other)
-	s := append(ns, other...)
+	s := ns.pivoted(other)
 	count := set.Inter(s, len(ns))
 	return s[:count]
 }
-- 
2.43.0


From d6086903bf1ad04f925c4469bb8eaa76facd2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:46 +0000
Subject: [PATCH 036/109] fix: keep back links right when the allocator merges
 free blocks

The block after the merged one still pointed back at the block that was
merged away, so removing it later left it in the free list.
---
 cuda/bfc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuda/bfc.go b/cuda/bfc.go
index 95a2a5c..4e7966c 100644
--- a/cuda/bfc.go
+++ b/cuda/bfc.go
@@ -435,6 +435,9 @@ func (b *bfc) coalesce() {
 			case block.cap() == next.address:
 				block.size += next.size
 				block.next = next.next
+				if next.next != nil {
+					next.next.prev = block
+				}
 				next.next = nil
 				next.prev = nil // kill i
 
-- 
2.43.0


From 569231d1382f890134c167c027d38e8cdf1fb416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:03 +0000
Subject: [PATCH 037/109] fix: flush every queued BLAS call

DoWork processed the queue only after it had received a second call, so a
call that was alone in the queue stayed there.
---
 blase/work.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blase/work.go b/blase/work.go
index 62a5319..764df68 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -143,15 +143,15 @@ func (ctx *context) DoWork() {
 				break enqueue
 
 			}
+		}
 
-			for i, c := range ctx.queue {
-				ctx.fns[i] = *(*C.struct_fnargs)(unsafe.Pointer(c.args))
-			}
-			C.process(&ctx.fns[0], C.int(len(ctx.queue)))
-
-			// clear queue
-			ctx.queue = ctx.queue[:0]
+		for i, c := range ctx.queue {
+			ctx.fns[i] = *(*C.struct_fnargs)(unsafe.Pointer(c.args))
 		}
+		C.process(&ctx.fns[0], C.int(len(ctx.queue)))
+
+		// clear queue
+		ctx.queue = ctx.queue[:0]
 	}
 }
 
-- 
2.43.0


From e70bb4a5b80eeac9e2f6cb5413101acc076c5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:03 +0000
Subject: [PATCH 038/109] fix: pass the number of columns to Dgemv

---
 blase/blas.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blase/blas.go b/blase/blas.go
index 5aaeeb5..d809b1d 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -75,7 +75,7 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 		order: C.cblas_order(rowMajor),
 		tA:    C.cblas_transpose(tA),
 		i0:    C.int(m),
-		i1:    C.int(m),
+		i1:    C.int(n),
 		d0:    C.double(alpha),
 		a0:    uintptr(unsafe.Pointer(&a[0])),
 		i2:    C.int(lda),
-- 
2.43.0


From 3ecf4cdcbcbba008ad6af83a40fb1bae41a07073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:08 +0000
Subject: [PATCH 039/109] fix: translate transpositions for queued BLAS calls

Gonum writes them as letters, CBLAS as its own enumeration. The calls
were rejected by CBLAS.
---
 blase/blas.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/blase/blas.go b/blase/blas.go
index d809b1d..c087e11 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -47,12 +47,24 @@ import (
 
 const rowMajor = 101 // rowMajor and rowMajor ONLY
 
+// cTranspose translates Gonum's notation for transposition to that of CBLAS
+func cTranspose(t blas.Transpose) C.cblas_transpose {
+	switch t {
+	case blas.Trans:
+		return C.CblasTrans
+	case blas.ConjTrans:
+		return C.CblasConjTrans
+	default:
+		return C.CblasNoTrans
+	}
+}
+
 func (ctx *context) Dgemm(tA blas.Transpose, tB blas.Transpose, m int, n int, k int, alpha float64, a []float64, lda int, b []float64, ldb int, beta float64, c []float64, ldc int) {
 	fn := &fnargs{
 		fn:    C.cblasFn(fn_cblas_dgemm),
 		order: C.cblas_order(rowMajor),
-		tA:    C.cblas_transpose(tA),
-		tB:    C.cblas_transpose(tB),
+		tA:    cTranspose(tA),
+		tB:    cTranspose(tB),
 		i0:    C.int(m),
 		i1:    C.int(n),
 		i2:    C.int(k),
@@ -73,7 +85,7 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 	fn := &fnargs{
 		fn:    C.cblasFn(fn_cblas_dgemv),
 		order: C.cblas_order(rowMajor),
-		tA:    C.cblas_transpose(tA),
+		tA:    cTranspose(tA),
 		i0:    C.int(m),
 		i1:    C.int(n),
 		d0:    C.double(alpha),
-- 
2.43.0


From fa815edf481bf424e1fd9c6995b831ccdf5ec0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:08 +0000
Subject: [PATCH 040/109] fix: refuse to copy tensors whose type or size does
 not fit

Copy handed mismatched tensors to the tensor package, which panicked or
copied only a part of the source. Report an error instead.
---
 values_utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/values_utils.go b/values_utils.go
index abf4baa..dc8a60c 100644
--- a/values_utils.go
+++ b/values_utils.go
@@ -223,6 +223,12 @@ func Copy(dest, src Value) (Value, error) {
 		if destT, ok = dest.(tensor.Tensor); !ok {
 			return nil, errors.Errorf("Expected dest to be a tensor.Tensor. Got %T instead", dest)
 		}
+		if destT.Dtype() != srcT.Dtype() {
+			return nil, errors.Errorf("Cannot copy a %v tensor into a %v tensor", srcT.Dtype(), destT.Dtype())
+		}
+		if logicalSize(destT.Shape()) != logicalSize(srcT.Shape()) {
+			return nil, errors.Errorf("Cannot copy a tensor of shape %v into a tensor of shape %v", srcT.Shape(), destT.Shape())
+		}
 		err := tensor.Copy(destT, srcT)
 		return dest, err
 	case CopierTo:
-- 
2.43.0


From 17a1ac80c41cbb10f2ef1bcf76f0d8a1c6d135f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:34 +0000
Subject: [PATCH 041/109] fix: compare scalar tensors in ValueClose

The data of a scalar tensor is not a slice, so the comparison panicked.
---
 equalities.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/equalities.go b/equalities.go
index 85b6d68..1c7e131 100644
--- a/equalities.go
+++ b/equalities.go
@@ -91,6 +91,16 @@ func tensorClose(a, b tensor.Tensor) bool {
 		return false
 	}
 
+	if a.IsScalar() || b.IsScalar() {
+		if !a.IsScalar() || !b.IsScalar() {
+			return false
+		}
+		// the data of a scalar tensor is not a slice
+		as, _ := anyToScalar(a.ScalarValue())
+		bs, _ := anyToScalar(b.ScalarValue())
+		return scalarClose(as, bs)
+	}
+
 	switch aDt {
 	case tensor.Float64:
 		aFs := a.Data().([]float64)
-- 
2.43.0


From 8a2d89a3071672005b1356082577ae034e2ab0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:51 +0000
Subject: [PATCH 042/109] fix: check plain Go scalars in Let like any other
 value

Binding a Go scalar skipped the shape and type checks, so a float32 could
be bound to a float64 node, or a scalar to a matrix.
---
 gorgonia.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gorgonia.go b/gorgonia.go
index 73e340e..bd327f0 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -291,7 +291,8 @@ func UnsafeLet(n *Node, be interface{}) error {
 			return errors.Wrapf(err, anyToValueFail, be, be)
 		}
 
-		n.bind(val)
+		// the value has to fit like any other
+		return UnsafeLet(n, val)
 	}
 	return nil
 }
-- 
2.43.0


From 43e317759c31503ff3bc327ca0f04087b44fd53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:14 +0000
Subject: [PATCH 043/109] fix: let scalar nodes accept scalars held in tensors

Let accepted a scalar tensor for a scalar node, but no operator on
scalars could use it. Bind the scalar itself.
---
 gorgonia.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gorgonia.go b/gorgonia.go
index bd327f0..aa567ec 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -278,6 +278,13 @@ func UnsafeLet(n *Node, be interface{}) error {
 		if !n.Dtype().Eq(v.Dtype()) {
 			return errors.Errorf("Unable to let %v be %v. Expected Dtype of %v. Got %v instead", n.name, be, n.Dtype(), v.Dtype())
 		}
+		if t, ok := v.(tensor.Tensor); ok && t.IsScalar() && n.IsScalar() {
+			// ops on scalars work with Scalar, not with tensors
+			var err error
+			if v, _, _, err = anyToValue(t.ScalarValue()); err != nil {
+				return errors.Wrapf(err, anyToValueFail, be, be)
+			}
+		}
 		n.bind(v)
 	case *Node:
 		// Case of letOp
-- 
2.43.0


From 9a98cc704a6b51403cb2c41e0538e69cbf3f35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:06 +0000
Subject: [PATCH 044/109] fix: include the dilation in the hash of im2col

Two convolutions that differ only in their dilation shared one im2col
node, so the second gave the values of the first.
---
 op_nn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_nn.go b/op_nn.go
index 65dca26..04e4154 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -225,7 +225,7 @@ func (op im2colOp) CallsExtern() bool    { return false }
 func (op im2colOp) OverwritesInput() int { return -1 }
 
 func (op im2colOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op im2colOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From e1bf9ea25e9566b70a9ac517701dcd9ac72b7deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:48 +0000
Subject: [PATCH 045/109] fix: keep different constants apart

Constants were looked up by their printed form, so float32 1 and
float64 1, constants with the same name, and large tensors that print
alike were taken for the same constant.
---
 equalities.go |  6 ++++++
 graph.go      | 23 ++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/equalities.go b/equalities.go
index 1c7e131..7aa0665 100644
--- a/equalities.go
+++ b/equalities.go
@@ -219,5 +219,11 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	// constants that are not the same may have the same hash, which is made from their text
+	if ac, ok := a.op.(constant); ok {
+		bc, ok := b.op.(constant)
+		return ok && ValueEq(ac.Value(), bc.Value())
+	}
+
 	return true
 }
diff --git a/graph.go b/graph.go
index 9709ca7..d0e61d8 100644
--- a/graph.go
+++ b/graph.go
@@ -140,11 +140,13 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 			g.to[retVal] = nil
 		}
 	}()
-	// check for node with the same name in the graph
+	// check for the same constant in the graph
 	// we don't update the graph if this is the case
-	for _, node := range g.constants {
-		if node.name == n.name && n.isConstant() {
-			return node
+	if n.isConstant() {
+		for _, node := range g.constants {
+			if node.name == n.name && nodeEq(n, node) {
+				return node
+			}
 		}
 	}
 	hash := n.Hashcode()
@@ -157,6 +159,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 					return e
 				}
 			}
+			n = g.ownConstant(n)
 			g.evac[hash] = append(g.evac[hash], n)
 			g.addToAll(n)
 			incrCC() // collision counter
@@ -164,6 +167,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		}
 
 		if !nodeEq(n, existing) {
+			n = g.ownConstant(n)
 			g.evac[hash] = Nodes{existing, n}
 			g.byHash[hash] = nil // to signal that it's collided
 			g.addToAll(n)
@@ -174,14 +178,19 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		return existing
 	}
 
+	n = g.ownConstant(n)
+	g.addToAll(n)
+	g.byHash[hash] = n
+	return n
+}
+
+// ownConstant makes a copy of a constant that belongs to g. Other nodes are returned as they are.
+func (g *ExprGraph) ownConstant(n *Node) *Node {
 	if n.isConstant() {
 		n = n.clone()
 		g.constants = g.constants.Add(n)
 		n.g = g
 	}
-
-	g.addToAll(n)
-	g.byHash[hash] = n
 	return n
 }
 
-- 
2.43.0


From d4caf443d9063657dd19757dffe7d4e0bd89d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:28 +0000
Subject: [PATCH 046/109] fix: tell dropouts with different probabilities apart

The hash left the probability out, so dropping the same node out twice with
different probabilities gave one node.
---
 op_dropout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_dropout.go b/op_dropout.go
index de2ecfd..c5c7fd5 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -37,7 +37,7 @@ func (op *dropoutOp) ReturnsPtr() bool { return false }
 
 func (op *dropoutOp) CallsExtern() bool { return false }
 
-func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, op.String()) }
+func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "%v%v", op, op.probability) }
 
 func (op *dropoutOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 1966b9cb178152e8c7b658cdac3f5052f477c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 047/109] fix: tell batch norms with close momentum or epsilon
 apart

The hash rounded both to one decimal, so epsilons of 1e-5 and 1e-3 on the
same input gave one node.
---
 op_nn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 04e4154..e316d67 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1220,7 +1220,7 @@ func (op *BatchNormOp) OverwritesInput() int { return -1 }
 
 // WriteHash ...
 func (op *BatchNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnorm-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnorm-%v-%v", op.momentum, op.epsilon)
 }
 
 // Hashcode ...
@@ -1677,7 +1677,7 @@ func (op *batchnormDiffOp) Do(values ...Value) (Value, error) {
 // OverwritesInput is the same exact characteristics of batchnorm
 
 func (op *batchnormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnormdiff-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnormdiff-%v-%v", op.momentum, op.epsilon)
 }
 
 func (op *batchnormDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From afcaeeb17325b3b75ee57a93145a73a6c3d1922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 048/109] fix: tell group norms with different epsilons apart

The hash left epsilon out.
---
 op_group_norm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 8dba67d..8df5d93 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -68,7 +68,7 @@ func (op *GroupNormOp) ReturnsPtr() bool { return false }
 func (op *GroupNormOp) CallsExtern() bool { return false }
 
 func (op *GroupNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v%v", op, op.epsilon)
 }
 
 func (op *GroupNormOp) Hashcode() uint32 { return simpleHash(op) }
@@ -514,7 +514,7 @@ func (op *groupNormDiffOp) ReturnsPtr() bool { return false }
 func (op *groupNormDiffOp) CallsExtern() bool { return false }
 
 func (op *groupNormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v%v", op, op.epsilon)
 }
 
 func (op *groupNormDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 363422d6a308625e1776d562ae21faae91ef8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 049/109] fix: tell CTC losses with different reductions apart

The hash left the reduction out.
---
 op_ctc_loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 08288be..ac96275 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -57,7 +57,7 @@ func (op *ctcLossOp) ReturnsPtr() bool { return false }
 func (op *ctcLossOp) CallsExtern() bool { return false }
 
 func (op *ctcLossOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "CTCLoss{}()")
+	fmt.Fprintf(h, "CTCLoss{%v}()", op.reduction)
 }
 
 func (op *ctcLossOp) Hashcode() uint32 { return simpleHash(op) }
@@ -520,7 +520,7 @@ type ctcLossDiffOp struct {
 func (op *ctcLossDiffOp) Arity() int { return 5 }
 
 func (op *ctcLossDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v%v", op, op.reduction)
 }
 
 func (op *ctcLossDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From a7ef27cfa04ef80f4866f5e5c4ab0353dc396ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 050/109] fix: tell sparsemaxes along different axes apart

The hash left the axis out.
---
 op_sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_sparsemax.go b/op_sparsemax.go
index 9165f42..ff73659 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -44,7 +44,7 @@ func (op *sparsemaxOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "Sparsemax{}()")
+	fmt.Fprintf(h, "Sparsemax{%d}()", op.axis)
 }
 
 func (op *sparsemaxOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From ddb39629183c8717f738c413c71b400e2926c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 051/109] fix: tell YOLO layers with different parameters apart

The hash held the anchors only.
---
 op_yolo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/op_yolo.go b/op_yolo.go
index c7327a7..f95eee4 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -69,7 +69,8 @@ func (op *yoloOp) ReturnsPtr() bool { return false }
 func (op *yoloOp) CallsExtern() bool { return false }
 
 func (op *yoloOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "YOLO{}(anchors: (%v))", op.anchors)
+	fmt.Fprintf(h, "YOLO{}(anchors: (%v), masks: (%v), size: %d, classes: %d, threshold: %v, training: %v)",
+		op.anchors, op.masks, op.dimensions, op.numClasses, op.ignoreTresh, op.trainMode)
 }
 func (op *yoloOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 7ff9ce2b5ac4a005700e44d12d547471f9870bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:46 +0000
Subject: [PATCH 052/109] fix: include the dilation in the hash of col2im

---
 op_nn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_nn.go b/op_nn.go
index e316d67..baa6d00 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -485,7 +485,7 @@ func (op col2imOp) CallsExtern() bool    { return false }
 func (op col2imOp) OverwritesInput() int { return -1 }
 
 func (op col2imOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op col2imOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 615b379685ccdf609dab666de1da2e77eefb8352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:16 +0000
Subject: [PATCH 053/109] fix: answer queries for unknown node IDs as gonum
 expects

Node returned an interface holding a nil pointer, which is not nil.
From and To returned nil, which callers cannot iterate over.
---
 graph.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index d0e61d8..e56ee5d 100644
--- a/graph.go
+++ b/graph.go
@@ -532,7 +532,10 @@ func (g *ExprGraph) Node(id int64) graph.Node {
 	// 	}
 	// }
 	// return nil
-	return g.node(id)
+	if n := g.node(id); n != nil {
+		return n
+	}
+	return nil
 }
 
 func (g *ExprGraph) node(id int64) *Node {
@@ -574,7 +577,7 @@ func (g *ExprGraph) From(nodeid int64) graph.Nodes {
 	if n := g.node(nodeid); n != nil {
 		return nodeToGraphNode(n.children)
 	}
-	return nil
+	return graph.Empty
 }
 
 // HasEdgeBetween returns whether an edge exists between nodes x and y without
@@ -623,7 +626,7 @@ func (g *ExprGraph) HasEdgeFromTo(u, v int64) bool {
 func (g *ExprGraph) To(nid int64) graph.Nodes {
 	n := g.node(nid)
 	if n == nil {
-		return nil
+		return graph.Empty
 	}
 
 	ns := g.to[n]
-- 
2.43.0


From 4965a8781f04a531876b31089929472a9e9937a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:16 +0000
Subject: [PATCH 054/109] fix: forget a removed node completely

After RemoveNode, nodes could no longer be found by their IDs, the operands
of the removed node still had it as a parent, and a removed constant was
handed out again. Removing a node that is not in the graph removed another
one with the same hash from the index.
---
 graph.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index e56ee5d..bdaff47 100644
--- a/graph.go
+++ b/graph.go
@@ -210,13 +210,28 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 	if n.id == -1 {
 		return // if it's -1, it was never in the graph to begin with
 	}
+	if !g.all.Contains(n) {
+		return
+	}
 
 	hash := n.Hashcode()
 
-	delete(g.byHash, hash)
+	if g.byHash[hash] == n {
+		delete(g.byHash, hash)
+	}
+	if evac, ok := g.evac[hash]; ok {
+		g.evac[hash] = evac.remove(n)
+	}
 	delete(g.to, n)
-	g.evac[hash] = g.evac[hash].remove(n)
+	for _, child := range n.children {
+		if tos, ok := g.to[child]; ok {
+			g.to[child] = tos.remove(n)
+		}
+	}
 	g.all = g.all.remove(n)
+	g.leaves = g.leaves.remove(n)
+	g.constants = g.constants.remove(n)
+	g.byID = make(map[int64]int) // the positions in g.all have changed
 }
 
 // SetEdge adds e, an edge from one node to another. If the nodes do not exist, they are added.
-- 
2.43.0


From e53395bddf614dd810ffa4cd240d36a4ecb41465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:57 +0000
Subject: [PATCH 055/109] fix: find the roots again after the graph has changed

Roots kept its first answer, also after nodes had been added or removed.
---
 graph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graph.go b/graph.go
index bdaff47..b7cbe30 100644
--- a/graph.go
+++ b/graph.go
@@ -199,6 +199,7 @@ func (g *ExprGraph) addToAll(n *Node) {
 		panic("HELP! trying to add nil")
 	}
 	g.all = append(g.all, n)
+	g.roots = nil
 	n.id = int64(g.counter)
 	g.counter++
 }
@@ -232,6 +233,7 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 	g.leaves = g.leaves.remove(n)
 	g.constants = g.constants.remove(n)
 	g.byID = make(map[int64]int) // the positions in g.all have changed
+	g.roots = nil
 }
 
 // SetEdge adds e, an edge from one node to another. If the nodes do not exist, they are added.
@@ -254,6 +256,7 @@ func (g *ExprGraph) SetEdge(e graph.Edge) {
 
 	// g.to[to] = g.to[to].Add(from)
 	g.to[to] = append(g.to[to], from)
+	g.roots = nil
 }
 
 // Roots returns a list of nodes that are not children of any other nodes
-- 
2.43.0


From 8ea358120c390d59150ae3c79f2046ec10579337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:57 +0000
Subject: [PATCH 056/109] fix: list every edge once and in the direction Edge
 reports

Edges listed the edges from the operands to the nodes that use them, and
an edge again each time the same expression was built.
---
 graph.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index b7cbe30..ba93056 100644
--- a/graph.go
+++ b/graph.go
@@ -519,10 +519,14 @@ func (g *ExprGraph) ToDot() string {
 func (g *ExprGraph) Edges() graph.Edges {
 	var edges []graph.Edge
 	for _, n := range g.all {
-		for _, toN := range g.to[n] {
+		seen := NewNodeSet()
+		for _, parent := range g.to[n] {
+			if !seen.Add(parent) {
+				continue
+			}
 			edges = append(edges, edge{
-				from: n,
-				to:   toN,
+				from: parent,
+				to:   n,
 			})
 		}
 	}
-- 
2.43.0


From f9d04fa314a3642d41c3889f40fe6cc36bafa6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:57 +0000
Subject: [PATCH 057/109] fix: compare the operands of nodes whose hashes are
 the same

Applications of one operator to different operands whose hashes happen to
collide were taken for the same node.
---
 equalities.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/equalities.go b/equalities.go
index 7aa0665..2794c1c 100644
--- a/equalities.go
+++ b/equalities.go
@@ -211,6 +211,13 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	// operands that are not the same may have the same hash
+	for i, c := range a.children {
+		if c != b.children[i] {
+			return false
+		}
+	}
+
 	if a.t != b.t {
 		return false
 	}
-- 
2.43.0


From c20052128fa3e070b2787b2bc0c6c1f57292f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:57 +0000
Subject: [PATCH 058/109] fix: print graphs in which hashes collide

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index ba93056..d8cdb68 100644
--- a/graph.go
+++ b/graph.go
@@ -337,7 +337,7 @@ func (g *ExprGraph) Constant(v Value) *Node {
 func (g *ExprGraph) String() string {
 	var buf bytes.Buffer
 	buf.WriteString("Graph: [\n")
-	for _, n := range g.byHash {
+	for _, n := range g.all {
 		fmt.Fprintf(&buf, "\t%d: %s\n", n.Hashcode(), n)
 	}
 	buf.WriteString("]")
-- 
2.43.0


From e2d5c5d38f646dffab1f5108b4816057c369b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:28 +0000
Subject: [PATCH 059/109] fix: reach only nodes that are in the graph

From also listed operands that had been removed from the graph.
---
 graph.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index d8cdb68..db2ef40 100644
--- a/graph.go
+++ b/graph.go
@@ -597,7 +597,13 @@ func (g *ExprGraph) AllNodes() Nodes { return g.all }
 // From returns all nodes in g that can be reached directly from n.
 func (g *ExprGraph) From(nodeid int64) graph.Nodes {
 	if n := g.node(nodeid); n != nil {
-		return nodeToGraphNode(n.children)
+		children := make(Nodes, 0, len(n.children))
+		for _, child := range n.children {
+			if g.Has(child.id) {
+				children = append(children, child)
+			}
+		}
+		return nodeToGraphNode(children)
 	}
 	return graph.Empty
 }
-- 
2.43.0


From be3bf13d51e62cd04c64ac212c87df1648e1b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:36 +0000
Subject: [PATCH 060/109] fix: make Subgraph of one node the sub-graph below
 that node

The sub-graph was computed and dropped; the result held the node alone.
---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index db2ef40..999e4b6 100644
--- a/graph.go
+++ b/graph.go
@@ -747,7 +747,7 @@ func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGra
 // otherwise, it treats ns as the subset of nodes to be included in the subgraph
 func (g *ExprGraph) Subgraph(ns ...*Node) *ExprGraph {
 	if len(ns) == 1 {
-		g.SubgraphRoots(ns[0])
+		return g.SubgraphRoots(ns[0])
 	}
 	return g.subgraph(ns, true)
 }
-- 
2.43.0


From 29cb59d260a58398a23cd862f52d67257ac00762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:36 +0000
Subject: [PATCH 061/109] fix: let a cloned graph find its roots

The clone of a graph whose roots had not been asked for claimed to have
none.
---
 graph.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index 999e4b6..b16615e 100644
--- a/graph.go
+++ b/graph.go
@@ -124,9 +124,11 @@ func (g *ExprGraph) Clone() interface{} {
 		g2.constants[i] = mapping[n]
 	}
 
-	g2.roots = make(Nodes, len(g.roots))
-	for i, n := range g.roots {
-		g2.roots[i] = mapping[n]
+	if g.roots != nil {
+		g2.roots = make(Nodes, len(g.roots))
+		for i, n := range g.roots {
+			g2.roots[i] = mapping[n]
+		}
 	}
 
 	g2.counter = g.counter
-- 
2.43.0


From fcdbb4f3a383886e5a99e44dada2f5c5f61e99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:10 +0000
Subject: [PATCH 062/109] fix: do not overwrite the values of requested nodes

A sub-graph or a compiled function may have a root that another of its
roots uses. Operators that work in place wrote over its value.
---
 analysis.go | 12 ++++++++++++
 compile.go  |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/analysis.go b/analysis.go
index aec5f39..2f46ca7 100644
--- a/analysis.go
+++ b/analysis.go
@@ -301,3 +301,15 @@ func (df *dataflow) buildIntervals(sorted Nodes) {
 	df.intervals = intervals
 	return
 }
+
+// keepAlive makes the values of the given nodes live until the end of the program, so that no later instruction overwrites them.
+func (df *dataflow) keepAlive(ns, sorted Nodes) {
+	for _, n := range ns {
+		if r, ok := df.replacements[n]; ok {
+			n = r
+		}
+		if iv, ok := df.intervals[n]; ok {
+			iv.addRange(iv.start, len(sorted))
+		}
+	}
+}
diff --git a/compile.go b/compile.go
index cf693c3..37a0f9d 100644
--- a/compile.go
+++ b/compile.go
@@ -37,6 +37,7 @@ func Compile(g *ExprGraph) (prog *program, locMap map[*Node]register, err error)
 	df := analyze(g, sortedNodes)
 	sortedNodes = df.insertDeviceInstr(sortedNodes)
 	df.buildIntervals(sortedNodes)
+	df.keepAlive(g.Roots(), sortedNodes)
 
 	ra := newRegalloc(df)
 	ra.alloc(sortedNodes)
@@ -88,6 +89,7 @@ func CompileFunction(g *ExprGraph, inputs, outputs Nodes) (prog *program, locMap
 	df := analyze(subgraph, sortedNodes)
 	sortedNodes = df.insertDeviceInstr(sortedNodes)
 	df.buildIntervals(sortedNodes)
+	df.keepAlive(outputs, sortedNodes)
 
 	ra := newRegalloc(df)
 	ra.alloc(sortedNodes)
-- 
2.43.0


From 7334890f0154ed2c420d1d1f4f2c2dc9cdab310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:16 +0000
Subject: [PATCH 063/109] fix: trace into memory of its own

A node may be bound to the memory of a machine that does not trace,
which several nodes share. Copying a traced value there changed the
values of the others.
---
 vm_tape_nocuda.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vm_tape_nocuda.go b/vm_tape_nocuda.go
index d6d2e96..0cd2101 100644
--- a/vm_tape_nocuda.go
+++ b/vm_tape_nocuda.go
@@ -97,9 +97,12 @@ func (instr *execOp) exec(m *tapeMachine) (err error) {
 	node := m.p.g.Node(instr.id).(*Node)
 
 	if m.trace() && (len(m.watchNodes) == 0 || m.watchNodes.Contains(node)) {
-		if err = node.bindCopy(v); err != nil {
+		// what the node is bound to may be the memory of a machine that does not trace, which other nodes share
+		var cloned Value
+		if cloned, err = CloneValue(v); err != nil {
 			return errors.Wrapf(err, "TraceExec failed to bind copy")
 		}
+		node.bind(cloned)
 		// Iop is special
 		if node.op == (Iop{}) {
 			v = node.Value()
-- 
2.43.0


From e1634a46b67503f19c4e54b3a9d5d6dfe4246ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:51 +0000
Subject: [PATCH 064/109] fix: let options configure AdaGrad

The learning rate, smoothing factor, L2 regularisation and clip given
to an AdaGrad solver were ignored.
---
 solvers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/solvers.go b/solvers.go
index c155358..4cc2081 100644
--- a/solvers.go
+++ b/solvers.go
@@ -70,6 +70,9 @@ func WithL2Reg(l2reg float64) SolverOpt {
 		case *AdamSolver:
 			st.l2reg = l2reg
 			st.useL2Reg = true
+		case *AdaGradSolver:
+			st.l2reg = l2reg
+			st.useL2Reg = true
 		case *VanillaSolver:
 			st.l2reg = l2reg
 			st.useL2Reg = true
@@ -130,6 +133,8 @@ func WithEps(eps float64) SolverOpt {
 			st.eps = eps
 		case *AdamSolver:
 			st.eps = eps
+		case *AdaGradSolver:
+			st.eps = eps
 		case *AdamW:
 			st.ɛ = eps
 		}
@@ -147,6 +152,9 @@ func WithClip(clip float64) SolverOpt {
 		case *AdamSolver:
 			st.clip = clip
 			st.useClip = true
+		case *AdaGradSolver:
+			st.clip = clip
+			st.useClip = true
 		case *VanillaSolver:
 			st.clip = clip
 			st.useClip = true
@@ -172,6 +180,8 @@ func WithLearnRate(eta float64) SolverOpt {
 			st.eta = eta
 		case *AdamSolver:
 			st.eta = eta
+		case *AdaGradSolver:
+			st.eta = eta
 		case *VanillaSolver:
 			st.eta = eta
 		case *BarzilaiBorweinSolver:
-- 
2.43.0


From ded5c0c2a3e414e5e10a5f519c2745dad4e1a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:05 +0000
Subject: [PATCH 065/109] fix: clip gradients of scalars in RMSProp

---
 solvers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/solvers.go b/solvers.go
index 4cc2081..db63449 100644
--- a/solvers.go
+++ b/solvers.go
@@ -381,6 +381,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := float32(s.eta)
 			eps := float32(s.eps)
 			l2reg := float32(s.l2reg)
+			clip := float32(s.clip)
 
 			gs := grad.(*F32).any()
 			c := cw.any()
@@ -388,6 +389,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F32).any()
 			upd := -stepSize*gs/math32.Sqrt(c+eps) - l2reg*w
 			w += upd
@@ -401,6 +410,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := s.eta
 			eps := s.eps
 			l2reg := s.l2reg
+			clip := s.clip
 
 			gs := grad.(*F64).any()
 			c := cw.any()
@@ -408,6 +418,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F64).any()
 			upd := -stepSize*gs/math.Sqrt(c+eps) - l2reg*w
 			w += upd
-- 
2.43.0


From c8db0a4b1e880796c96735e3eaa968b448561780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:21 +0000
Subject: [PATCH 066/109] fix: do not push scalars away from zero with L1
 regularisation

The sign of a weight that is zero is zero, as it is for tensors.
---
 solvers.go | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/solvers.go b/solvers.go
index db63449..defa680 100644
--- a/solvers.go
+++ b/solvers.go
@@ -679,10 +679,12 @@ func (s *AdamSolver) Step(model []ValueGrad) (err error) {
 			eta := float32(s.eta)
 
 			if s.useL1Reg {
-				if w < 0 {
-					l1reg = -l1reg
+				switch {
+				case w < 0:
+					g -= l1reg
+				case w > 0:
+					g += l1reg
 				}
-				g += l1reg
 			}
 
 			if s.useL2Reg {
@@ -732,10 +734,12 @@ func (s *AdamSolver) Step(model []ValueGrad) (err error) {
 			eta := s.eta
 
 			if s.useL1Reg {
-				if w < 0 {
-					l1reg = -l1reg
+				switch {
+				case w < 0:
+					g -= l1reg
+				case w > 0:
+					g += l1reg
 				}
-				g += l1reg
 			}
 
 			if s.useL2Reg {
@@ -896,10 +900,12 @@ func (s *VanillaSolver) Step(model []ValueGrad) (err error) {
 			eta := float32(s.eta)
 
 			if s.useL1Reg {
-				if wv < 0 {
-					l1reg = -l1reg
+				switch {
+				case wv < 0:
+					g -= l1reg
+				case wv > 0:
+					g += l1reg
 				}
-				g += l1reg
 			}
 
 			if s.useL2Reg {
@@ -935,10 +941,12 @@ func (s *VanillaSolver) Step(model []ValueGrad) (err error) {
 			eta := s.eta
 
 			if s.useL1Reg {
-				if wv < 0 {
-					l1reg = -l1reg
+				switch {
+				case wv < 0:
+					g -= l1reg
+				case wv > 0:
+					g += l1reg
 				}
-				g += l1reg
 			}
 
 			if s.useL2Reg {
@@ -1123,10 +1131,12 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c := cw.any()
 
 			if s.useL1Reg {
-				if w < 0 {
-					l1reg = -l1reg
+				switch {
+				case w < 0:
+					g -= l1reg
+				case w > 0:
+					g += l1reg
 				}
-				g += l1reg
 			}
 
 			if s.useL2Reg {
@@ -1164,10 +1174,12 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c := cw.any()
 
 			if s.useL1Reg {
-				if w < 0 {
-					l1reg = -l1reg
+				switch {
+				case w < 0:
+					g -= l1reg
+				case w > 0:
+					g += l1reg
 				}
-				g += l1reg
 			}
 
 			if s.useL2Reg {
-- 
2.43.0


From ad1b617a56955bbba2708c6099dec4e57157fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:36 +0000
Subject: [PATCH 067/109] fix: regularise the weights in the momentum solver

For tensors the penalty was computed from the velocity.
---
 solvers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers.go b/solvers.go
index defa680..0ff15f5 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1058,7 +1058,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			// prep the regularization of gradients
 			var l1regs, l2regs tensor.Tensor
 			if s.useL1Reg {
-				if l1regs, err = tensor.Sign(cw); err != nil {
+				if l1regs, err = tensor.Sign(w); err != nil {
 					return errors.Wrap(err, signFail)
 				}
 
@@ -1074,7 +1074,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			}
 
 			if s.useL2Reg {
-				if l2regs, err = tensor.Mul(cw, l2reg); err != nil {
+				if l2regs, err = tensor.Mul(w, l2reg); err != nil {
 					return errors.Wrap(err, pointWiseMulFail)
 				}
 
-- 
2.43.0


From 79320e978c1f1a3bccb864a09f5dfae20d920ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:53 +0000
Subject: [PATCH 068/109] fix: keep the momentum of scalars between steps

---
 solvers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solvers.go b/solvers.go
index 0ff15f5..093404d 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1159,6 +1159,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F32)) = F32(w)
 			*(grad.(*F32)) = F32(0.0)
 		case *F64:
@@ -1202,6 +1204,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F64)) = F64(w)
 			*(grad.(*F64)) = F64(0.0)
 		default:
-- 
2.43.0


From 8a54ee07f744960cf16636a78361a60a61ac9000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:11 +0000
Subject: [PATCH 069/109] fix: accumulate the squared gradients of scalars in
 AdaGrad

---
 solvers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solvers.go b/solvers.go
index 093404d..a588b8a 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1352,6 +1352,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F32).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
@@ -1386,6 +1387,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F64).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
-- 
2.43.0


From fbe89f3853863abf202db4d8ca02420ee1039960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:35:47 +0000
Subject: [PATCH 070/109] fix: make AdamW update the weights by its rule

The step was added to a copy of the weights, and the moving averages
were decayed with the bias corrections instead of the betas.
---
 solvers.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/solvers.go b/solvers.go
index a588b8a..559594e 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1676,10 +1676,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = 1.0 - lr*wd
 			b1f := 1.0 - math.Pow(β1, it) // correction for beta
 			b2f := 1.0 - math.Pow(β2, it)
-			a1 = 1.0 - b1f
-			a2 = 1.0 - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = 1.0 - β1
+			a2 = 1.0 - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math.Sqrt(b2f)
 			ss = -(lr / b1f)
 
@@ -1698,10 +1698,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = float32(1.0) - lr*wd
 			b1f := float32(1.0) - math32.Pow(β1, it) // correction for beta
 			b2f := float32(1.0) - math32.Pow(β2, it)
-			a1 = float32(1.0) - b1f
-			a2 = float32(1.0) - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = float32(1.0) - β1
+			a2 = float32(1.0) - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math32.Sqrt(b2f)
 			ss = -(lr / b1f)
 
@@ -1737,7 +1737,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		var gSq tensor.Tensor
 
 		// θ_t =  (1 - ηλ)θ_t-1
-		if w, err = tensor.Mul(w, decay); err != nil {
+		if w, err = tensor.Mul(w, decay, tensor.UseUnsafe()); err != nil {
 			return err
 		}
 
-- 
2.43.0


From 37a38b729226ac25a86516813750ee8d978c8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:03 +0000
Subject: [PATCH 071/109] fix: regularise and clip float32 parameters in AdamW

---
 solvers.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solvers.go b/solvers.go
index 559594e..a39beaa 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1705,10 +1705,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			b2sqrt = math32.Sqrt(b2f)
 			ss = -(lr / b1f)
 
-			l1reg = a.l1reg
-			l2reg = a.l2reg
-			clip = a.clip
-			negClip = -a.clip
+			l1reg = float32(a.l1reg)
+			l2reg = float32(a.l2reg)
+			clip = float32(a.clip)
+			negClip = float32(-a.clip)
 
 		}
 		// regularization of gradients
-- 
2.43.0


From e23d645eb5d2bd1c5f891847bba4674f8c11c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:17 +0000
Subject: [PATCH 072/109] fix: let AdamW handle scalars and any kind of
 parameter

---
 solvers.go       | 25 ++++++++++++++++---------
 solvers_utils.go | 17 +++++++++++++++++
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/solvers.go b/solvers.go
index a39beaa..e900dda 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1618,7 +1618,7 @@ type AdamW struct {
 
 	// unsettable
 	iter   float64
-	states map[*Node]*adamwState
+	states map[ValueGrad]*adamwState
 }
 
 func NewAdamW(opts ...SolverOpt) *AdamW {
@@ -1628,7 +1628,7 @@ func NewAdamW(opts ...SolverOpt) *AdamW {
 		λ:      0.01,
 		β1:     0.9,
 		β2:     0.999,
-		states: make(map[*Node]*adamwState),
+		states: make(map[ValueGrad]*adamwState),
 	}
 	for _, opt := range opts {
 		opt(s)
@@ -1646,20 +1646,25 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 	*/
 	a.iter++
 	for _, n := range model {
-		n := n.(*Node)
 		var weights, grad Value
 		if weights, grad, err = extractWeightGrad(n); err != nil {
 			return err
 		}
-		w := weights.(tensor.Tensor)
-		g := grad.(tensor.Tensor)
+		var w, g tensor.Tensor
+		var setWeights, setGrad func()
+		if w, setWeights, err = solverTensor(weights); err != nil {
+			return errors.Wrapf(err, "AdamW step of %v", n)
+		}
+		if g, setGrad, err = solverTensor(grad); err != nil {
+			return errors.Wrapf(err, "AdamW step of %v", n)
+		}
 
 		st, ok := a.states[n]
 		if !ok {
 			st = new(adamwState)
-			st.expMA = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
-			st.expMASq = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
-			st.denom = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
+			st.expMA = tensor.New(tensor.WithShape(g.Shape().Clone()...), tensor.Of(g.Dtype()))
+			st.expMASq = tensor.New(tensor.WithShape(g.Shape().Clone()...), tensor.Of(g.Dtype()))
+			st.denom = tensor.New(tensor.WithShape(g.Shape().Clone()...), tensor.Of(g.Dtype()))
 			a.states[n] = st
 		}
 
@@ -1778,7 +1783,9 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			return err
 		}
 
-		g.(tensor.Tensor).Zero()
+		g.Zero()
+		setWeights()
+		setGrad()
 	}
 	return nil
 }
diff --git a/solvers_utils.go b/solvers_utils.go
index 3ac320c..8f8bebd 100644
--- a/solvers_utils.go
+++ b/solvers_utils.go
@@ -56,3 +56,20 @@ func clipGrad(g tensor.Tensor, clip, negClip interface{}) (err error) {
 	}
 	return nil
 }
+
+// solverTensor returns a tensor holding v, and a function that puts what is in the tensor back into v.
+// Tensors are returned as they are.
+func solverTensor(v Value) (t tensor.Tensor, set func(), err error) {
+	switch x := v.(type) {
+	case tensor.Tensor:
+		return x, func() {}, nil
+	case *F64:
+		back := []float64{float64(*x)}
+		return tensor.New(tensor.WithShape(1), tensor.WithBacking(back)), func() { *x = F64(back[0]) }, nil
+	case *F32:
+		back := []float32{float32(*x)}
+		return tensor.New(tensor.WithShape(1), tensor.WithBacking(back)), func() { *x = F32(back[0]) }, nil
+	default:
+		return nil, nil, errors.Errorf("solvers cannot handle %T", v)
+	}
+}
-- 
2.43.0


From a9908d66288b830c3f2359c437026e700bafd5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:26 +0000
Subject: [PATCH 073/109] fix: let the Barzilai-Borwein solver handle float32
 parameters

---
 solvers.go       | 10 +++++++---
 solvers_utils.go | 17 +++++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/solvers.go b/solvers.go
index e900dda..8bf62d0 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1514,7 +1514,7 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				}
 				defer returnTensor(valGradDiffscalarProd)
 
-				nominator += valGradDiffscalarProd.Data().([]float64)[0]
+				nominator += firstAsFloat64(valGradDiffscalarProd)
 
 				// ∥(Grad(F)(xᵢ) - Grad(F)(xᵢ₋₁))∥²
 				gradDiffscalarProd, err := tensor.Contract(gradDiff, gradDiff, contractionAxes, contractionAxes)
@@ -1523,7 +1523,7 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				}
 				defer returnTensor(gradDiffscalarProd)
 
-				denominator += gradDiffscalarProd.Data().([]float64)[0]
+				denominator += firstAsFloat64(gradDiffscalarProd)
 
 			default:
 				return errors.Errorf(nyiFail, "Barizai-Borwein step", w)
@@ -1573,7 +1573,11 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				return errors.Errorf("Expected a *tensor.Dense in %v. Got %T instead", node, grad)
 			}
 
-			upd, err := tensor.Mul(g, s.eta)
+			var eta interface{} = s.eta
+			if g.Dtype() == tensor.Float32 {
+				eta = float32(s.eta)
+			}
+			upd, err := tensor.Mul(g, eta)
 			defer returnTensor(upd)
 
 			if err != nil {
diff --git a/solvers_utils.go b/solvers_utils.go
index 8f8bebd..6747345 100644
--- a/solvers_utils.go
+++ b/solvers_utils.go
@@ -1,6 +1,8 @@
 package gorgonia
 
 import (
+	"math"
+
 	"github.com/pkg/errors"
 	"gorgonia.org/tensor"
 )
@@ -73,3 +75,18 @@ func solverTensor(v Value) (t tensor.Tensor, set func(), err error) {
 		return nil, nil, errors.Errorf("solvers cannot handle %T", v)
 	}
 }
+
+// firstAsFloat64 returns the first element of a tensor of floats.
+func firstAsFloat64(t tensor.Tensor) float64 {
+	switch data := t.Data().(type) {
+	case []float64:
+		return data[0]
+	case []float32:
+		return float64(data[0])
+	case float64:
+		return data
+	case float32:
+		return float64(data)
+	}
+	return math.NaN()
+}
-- 
2.43.0


From 5d9e57e882dc94f197a04145144fd910882bbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:39 +0000
Subject: [PATCH 074/109] fix: let the Barzilai-Borwein solver handle scalars

---
 solvers.go | 139 +++++++++++++++++++++++++----------------------------
 1 file changed, 66 insertions(+), 73 deletions(-)

diff --git a/solvers.go b/solvers.go
index 8bf62d0..558a758 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1470,64 +1470,57 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				return err
 			}
 
-			switch w := weights.(type) {
-			case *tensor.Dense:
-				g, ok := grad.(*tensor.Dense)
-				if !ok {
-					return errors.Errorf("Expected a *tensor.Dense in %v. Got %T instead", node, grad)
-				}
-
-				wOld, ok := s.prevDV[nodeNr].Value.(*tensor.Dense)
-				if !ok {
-					return errors.Errorf("Expected a *tensor.Dense in %v. Got %T instead", node, s.prevDV[nodeNr].Value)
-				}
-
-				gOld, ok := s.prevDV[nodeNr].d.(*tensor.Dense)
-				if !ok {
-					return errors.Errorf("Expected a *tensor.Dense in %v. Got %T instead", node, s.prevDV[nodeNr].d)
-				}
-
-				valueDiff, err := tensor.Sub(w, wOld)
-				defer returnTensor(valueDiff)
-				if err != nil {
-					return errors.Wrap(err, subFail)
-				}
-
-				gradDiff, err := tensor.Sub(g, gOld)
-				defer returnTensor(gradDiff)
-				if err != nil {
-					return errors.Wrap(err, subFail)
-				}
+			var w, g, wOld, gOld tensor.Tensor
+			if w, _, err = solverTensor(weights); err != nil {
+				return errors.Wrapf(err, "Barzilai-Borwein step of %v", node)
+			}
+			if g, _, err = solverTensor(grad); err != nil {
+				return errors.Wrapf(err, "Barzilai-Borwein step of %v", node)
+			}
+			if wOld, _, err = solverTensor(s.prevDV[nodeNr].Value); err != nil {
+				return errors.Wrapf(err, "Barzilai-Borwein step of %v", node)
+			}
+			if gOld, _, err = solverTensor(s.prevDV[nodeNr].d); err != nil {
+				return errors.Wrapf(err, "Barzilai-Borwein step of %v", node)
+			}
 
-				// <(xᵢ - xᵢ₋₁), (Grad(F)(xᵢ) - Grad(F)(xᵢ₋₁))>
+			valueDiff, err := tensor.Sub(w, wOld)
+			defer returnTensor(valueDiff)
+			if err != nil {
+				return errors.Wrap(err, subFail)
+			}
 
-				// Scalar Product == Total tensor contraction
-				dims := valueDiff.Dims()
-				contractionAxes := make([]int, dims, dims)
-				for axis := 0; axis < len(contractionAxes); axis++ {
-					contractionAxes[axis] = axis
-				}
+			gradDiff, err := tensor.Sub(g, gOld)
+			defer returnTensor(gradDiff)
+			if err != nil {
+				return errors.Wrap(err, subFail)
+			}
 
-				valGradDiffscalarProd, err := tensor.Contract(valueDiff, gradDiff, contractionAxes, contractionAxes)
-				if err != nil {
-					return errors.New("operationError, Contracting value / gradient difference")
-				}
-				defer returnTensor(valGradDiffscalarProd)
+			// <(xᵢ - xᵢ₋₁), (Grad(F)(xᵢ) - Grad(F)(xᵢ₋₁))>
 
-				nominator += firstAsFloat64(valGradDiffscalarProd)
+			// Scalar Product == Total tensor contraction
+			dims := valueDiff.Dims()
+			contractionAxes := make([]int, dims, dims)
+			for axis := 0; axis < len(contractionAxes); axis++ {
+				contractionAxes[axis] = axis
+			}
 
-				// ∥(Grad(F)(xᵢ) - Grad(F)(xᵢ₋₁))∥²
-				gradDiffscalarProd, err := tensor.Contract(gradDiff, gradDiff, contractionAxes, contractionAxes)
-				if err != nil {
-					return errors.New("operationError, Contracting value / gradient difference")
-				}
-				defer returnTensor(gradDiffscalarProd)
+			valGradDiffscalarProd, err := tensor.Contract(valueDiff, gradDiff, contractionAxes, contractionAxes)
+			if err != nil {
+				return errors.New("operationError, Contracting value / gradient difference")
+			}
+			defer returnTensor(valGradDiffscalarProd)
 
-				denominator += firstAsFloat64(gradDiffscalarProd)
+			nominator += firstAsFloat64(valGradDiffscalarProd)
 
-			default:
-				return errors.Errorf(nyiFail, "Barizai-Borwein step", w)
+			// ∥(Grad(F)(xᵢ) - Grad(F)(xᵢ₋₁))∥²
+			gradDiffscalarProd, err := tensor.Contract(gradDiff, gradDiff, contractionAxes, contractionAxes)
+			if err != nil {
+				return errors.New("operationError, Contracting value / gradient difference")
 			}
+			defer returnTensor(gradDiffscalarProd)
+
+			denominator += firstAsFloat64(gradDiffscalarProd)
 		}
 
 		s.eta = nominator / denominator
@@ -1566,33 +1559,33 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 			return err
 		}
 
-		switch w := weights.(type) {
-		case *tensor.Dense:
-			g, ok := grad.(*tensor.Dense)
-			if !ok {
-				return errors.Errorf("Expected a *tensor.Dense in %v. Got %T instead", node, grad)
-			}
-
-			var eta interface{} = s.eta
-			if g.Dtype() == tensor.Float32 {
-				eta = float32(s.eta)
-			}
-			upd, err := tensor.Mul(g, eta)
-			defer returnTensor(upd)
-
-			if err != nil {
-				return errors.Wrap(err, pointWiseMulFail)
-			}
+		var w, g tensor.Tensor
+		var setWeights, setGrad func()
+		if w, setWeights, err = solverTensor(weights); err != nil {
+			return errors.Wrapf(err, "Barzilai-Borwein step of %v", node)
+		}
+		if g, setGrad, err = solverTensor(grad); err != nil {
+			return errors.Wrapf(err, "Barzilai-Borwein step of %v", node)
+		}
 
-			if _, err = tensor.Sub(w, upd, tensor.UseUnsafe()); err != nil {
-				return errors.Wrap(err, subFail)
-			}
+		var eta interface{} = s.eta
+		if g.Dtype() == tensor.Float32 {
+			eta = float32(s.eta)
+		}
+		upd, err := tensor.Mul(g, eta)
+		defer returnTensor(upd)
 
-			g.Zero()
+		if err != nil {
+			return errors.Wrap(err, pointWiseMulFail)
+		}
 
-		default:
-			return errors.Errorf(nyiFail, "Barizai-Borwein step", w)
+		if _, err = tensor.Sub(w, upd, tensor.UseUnsafe()); err != nil {
+			return errors.Wrap(err, subFail)
 		}
+
+		g.Zero()
+		setWeights()
+		setGrad()
 	}
 
 	return nil
-- 
2.43.0


From 0b779f33832773cbc60bff4f86b90d8a75d2a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:13 +0000
Subject: [PATCH 075/109] fix: keep gradients and weights of one element intact
 in AdamW

Incrementing by the product of a tensor of one element and a scalar
overwrites the tensor when it is on the left.
---
 solvers.go       | 2 +-
 solvers_utils.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers.go b/solvers.go
index 558a758..26f031d 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1747,7 +1747,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if st.expMA, err = tensor.Mul(st.expMA, b1, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(g, a1, tensor.WithIncr(st.expMA)); err != nil {
+		if _, err = tensor.Mul(a1, g, tensor.WithIncr(st.expMA)); err != nil {
 			return err
 		}
 
diff --git a/solvers_utils.go b/solvers_utils.go
index 6747345..94022da 100644
--- a/solvers_utils.go
+++ b/solvers_utils.go
@@ -22,7 +22,7 @@ func doL1Reg(w, g tensor.Tensor, l1reg interface{}) (err error) {
 }
 
 func doL2Reg(w, g tensor.Tensor, l2reg interface{}) (err error) {
-	if _, err = tensor.Mul(w, l2reg, tensor.WithIncr(g)); err != nil {
+	if _, err = tensor.Mul(l2reg, w, tensor.WithIncr(g)); err != nil {
 		return errors.Wrap(err, pointWiseMulFail)
 	}
 	return nil
-- 
2.43.0


From 7fcdbd0dc8cbea7b918e09e2e826aedf92488027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:49:43 +0000
Subject: [PATCH 076/109] fix: keep the gradient of a softmax apart from that
 of its operand

After differentiating a softmax the interpreting machine left its output
with the operand's gradient, in the same memory. In the next run the two
were mixed up.
---
 op_softmax.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index f666601..ab08846 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -146,14 +146,9 @@ func (op *softmaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
 
-	return nil
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 388c5b965c99ce43531a56273a11c7bd86ef7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:50:48 +0000
Subject: [PATCH 077/109] fix: let the gradient of a sum's result keep its
 shape

Differentiating a sum along an axis reshaped the gradient of its result in
place. The next run of the interpreting machine then failed or mixed up
shapes.
---
 op_reduction.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/op_reduction.go b/op_reduction.go
index 8ae9339..f39276c 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -276,6 +276,8 @@ func (op sumOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err er
 			for _, a := range op.along {
 				newShape[a] = 1
 			}
+			// the gradient of the output keeps its shape: it is used again in the next run
+			ydvd = ydvd.Clone().(tensor.Tensor)
 			ydvd.Reshape(newShape...)
 		}
 
-- 
2.43.0


From db0d7ce4b80aa580e70c32fa4ac5f34436020662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:42 +0000
Subject: [PATCH 078/109] fix: name the node that failed in the interpreting
 machine's errors

The machine moved on to the next node before it reported the error, so the
error named the node after the one that failed.
---
 vm_genera.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index c0bcc9b..1ee8404 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -263,8 +263,11 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 		goto backward
 	}
 
-	for err = nil; err == nil && m.fwd < len(m.sorted); m.fwd++ {
-		err = m.forward()
+	// on failure m.fwd stays at the node that failed, which is named in the error
+	for ; m.fwd < len(m.sorted); m.fwd++ {
+		if err = m.forward(); err != nil {
+			break
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 907374adfd83eeca6ec05329fceb13ffeb629118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:33 +0000
Subject: [PATCH 079/109] fix: let the watches for NaNs and infinities accept
 other scalars

A graph with a comparison of scalars produces a boolean. Running it with
WithNaNWatch or WithInfWatch crashed the program, as only float scalars
were known to the watches.
---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index ed7d394..e92676f 100644
--- a/utils.go
+++ b/utils.go
@@ -187,6 +187,8 @@ func hasInf(v Value, dev Device) bool {
 		return false
 	case *dualValue:
 		return hasInf(vt.Value, dev) || hasInf(vt.d, dev)
+	case Scalar:
+		return false // only floats can be infinite
 	default:
 		err := nyi("hasInf", v)
 		panic(err)
@@ -229,6 +231,8 @@ func hasNaN(v Value, dev Device) bool {
 		return false
 	case *dualValue:
 		return hasNaN(vt.Value, dev) || hasNaN(vt.d, dev)
+	case Scalar:
+		return false // only floats can be NaN
 	default:
 		err := nyi("hasNaN", vt)
 		panic(err)
-- 
2.43.0


From 98592600a3b99596c55f399b4e860e42100caecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:33 +0000
Subject: [PATCH 080/109] fix: watch the first register for NaNs and infinities
 too

The tape machine skipped results written to register 0, so a NaN or an
infinity produced there went unnoticed.
---
 vm_tape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vm_tape.go b/vm_tape.go
index d45f9cf..8d5a8a4 100644
--- a/vm_tape.go
+++ b/vm_tape.go
@@ -279,7 +279,7 @@ func (m *tapeMachine) runall(errChan chan error, doneChan chan struct{}) {
 		if m.watchNaN() {
 			writeTo := instr.writes().id
 			id := instr.ID()
-			if writeTo > 0 && id > 0 {
+			if writeTo >= 0 && id > 0 {
 				v := m.getValue(instr.writes())
 				if v == nil {
 					err := errors.Errorf(nyiFail, "converting tensor.Memory to Value", "watchNaN")
@@ -299,7 +299,7 @@ func (m *tapeMachine) runall(errChan chan error, doneChan chan struct{}) {
 		if m.watchInf() {
 			writeTo := instr.writes().id
 			id := instr.ID()
-			if writeTo > 0 && id > 0 {
+			if writeTo >= 0 && id > 0 {
 				v := m.getValue(instr.writes())
 				if v == nil {
 					err := errors.Errorf(nyiFail, "converting tensor.Memory to Value", "watchInf")
-- 
2.43.0


From 11be3b3fe0eaa1551830510867ee7df187acfe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:33 +0000
Subject: [PATCH 081/109] fix: watch for infinities in the interpreting machine

NewLispMachine accepts WithInfWatch but never looked for infinities.
---
 vm_genera.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 1ee8404..32c2005 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -511,6 +511,12 @@ func (m *lispMachine) forward() (err error) {
 		}
 	}
 
+	if m.watchInf() && !n.isStmt {
+		if hasInf(n.boundTo, dev) {
+			return errors.New("Inf found in value")
+		}
+	}
+
 	return
 }
 
@@ -564,6 +570,18 @@ func (m *lispMachine) backward() (err error) {
 			}
 		}
 	}
+
+	if m.watchInf() {
+		if hasInf(instr.output.boundTo, instr.ctx.Device) {
+			return errors.New("Inf found in value")
+		}
+
+		for _, in := range instr.inputs {
+			if hasInf(in.boundTo, instr.ctx.Device) {
+				return errors.New("Inf found in value")
+			}
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 4178806e6b864d3ac93fa746291bdba4924f8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:27:47 +0000
Subject: [PATCH 082/109] fix: keep the shapes of gradients when
 differentiating a repeat

Differentiating a repeat automatically left the gradient of its operand
without the axis of size 1 that was repeated, and the gradient of its
result with one axis too many. The next run then failed or accumulated
stale gradients.
---
 op_tensor.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 9946e4c..4280c0b 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -313,11 +313,13 @@ func (op repeatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 			along := []int{axis + 1}
 
 			// a scalar can never get to this path
-			t := d.(tensor.Tensor)
+			// the gradient of the output keeps its own shape
+			t := d.(tensor.Tensor).Clone().(tensor.Tensor)
 			if err = t.Reshape(newShape...); err != nil {
 				err = errors.Wrapf(err, reshapeFail, newShape, t.DataSize())
 				return
 			}
+			d = t
 
 			sum := newSumOp(along, newShape, len(newShape))
 			if d, err = sum.Do(d); err != nil {
@@ -338,6 +340,13 @@ func (op repeatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 
 	}
 
+	// summing drops an axis of size 1 that the input has
+	if t, ok := d.(tensor.Tensor); ok && !xdv.Shape().IsScalar() {
+		if err = t.Reshape(xdv.Shape()...); err != nil {
+			return errors.Wrapf(err, reshapeFail, xdv.Shape(), t.DataSize())
+		}
+	}
+
 	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
 	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
 		return
-- 
2.43.0


From 71a3450ebd0b211702a1f31d891fb63e931d1aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:07 +0000
Subject: [PATCH 083/109] fix: give dropout a result of its own

Without anything to drop, dropout returned its operand, and operators that
work in place then overwrote that. Into a given buffer it could not write
at all: it passed a method where the data was meant, and left dropped
elements as they were.
---
 op_dropout.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/op_dropout.go b/op_dropout.go
index c5c7fd5..2674727 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -78,7 +78,7 @@ func (op *dropoutOp) Do(inputs ...Value) (retVal Value, err error) {
 	}
 
 	if op.probability == 0.0 || !op.isTraining {
-		return inputTensor, nil
+		return CloneValue(inputTensor)
 	}
 
 	ret := tensor.New(tensor.WithShape(inputTensor.Shape().Clone()...), tensor.Of(inputTensor.Dtype()))
@@ -95,10 +95,10 @@ func (op *dropoutOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 	}
 
 	if op.probability == 0.0 || !op.isTraining {
-		return inputTensor, nil
+		return Copy(prealloc, inputTensor)
 	}
 
-	op.do(inputTensor.Data, prealloc.Data())
+	op.do(inputTensor.Data(), prealloc.Data())
 
 	return prealloc, nil
 }
@@ -113,6 +113,8 @@ func (op *dropoutOp) do(input, output interface{}) {
 			r := float32(op.rndGen())
 			if r < float32(keepProb) {
 				outputV[i] = d / float32(keepProb)
+			} else {
+				outputV[i] = 0
 			}
 		}
 	case []float64:
@@ -121,6 +123,8 @@ func (op *dropoutOp) do(input, output interface{}) {
 			r := op.rndGen()
 			if r < keepProb {
 				outputV[i] = d / keepProb
+			} else {
+				outputV[i] = 0
 			}
 		}
 	default:
-- 
2.43.0


From 559bc78c373768adac4cc9464ae85f2803216a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:07 +0000
Subject: [PATCH 084/109] fix: pass the gradient through dropout in evaluation
 mode

In evaluation mode dropout is the identity, but its gradient was scaled as
in training mode, and zero where the output was zero.
---
 op_dropout.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/op_dropout.go b/op_dropout.go
index 2674727..5c3ace0 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -213,6 +213,10 @@ func (op *dropoutDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal
 	output := inputs[1].(*tensor.Dense)
 	outGrad := inputs[2].(*tensor.Dense)
 
+	if !op.isTraining {
+		return Copy(prealloc, outGrad)
+	}
+
 	probability := op.probability
 
 	switch input.Dtype() {
-- 
2.43.0


From c72b9092a0d4c20f55dbf1ee68f7d75476c9e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:07 +0000
Subject: [PATCH 085/109] fix: add the gradient of dropout to the one its
 operand has

An operand used twice lost what the other use had contributed.
---
 op_dropout.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/op_dropout.go b/op_dropout.go
index 5c3ace0..000a24d 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -141,9 +141,17 @@ func (op *dropoutOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 	diff := &dropoutDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
 
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, output.Value(), ydv.d)
+	d, err := diff.Do(xdv.Value, output.Value(), ydv.d)
+	if err != nil {
+		return err
+	}
+
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
+		return err
+	}
 
-	return err
+	return xdv.SetDeriv(d)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 00c3c8b51ed1ff565e21e48ae88f05d27b2bf867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:07 +0000
Subject: [PATCH 086/109] fix: normalise the input of a batch normalisation,
 not its old output

With a preallocated result the operator normalised whatever the buffer
held instead of its input.
---
 op_nn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index baa6d00..549779d 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1461,6 +1461,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF64s := input.Float64s()
 	outputF64s := output.Float64s()
 
 	if spatialDim == 1 {
@@ -1468,7 +1469,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+				outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 			}
 		})
 	} else {
@@ -1477,7 +1478,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+					outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
@@ -1608,6 +1609,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF32s := input.Float32s()
 	outputF32s := output.Float32s()
 
 	if spatialDim == 1 {
@@ -1615,7 +1617,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+				outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 			}
 		})
 
@@ -1625,7 +1627,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+					outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
-- 
2.43.0


From 6b6207cb919bf2e56e3ca206923c1b13be57ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:07 +0000
Subject: [PATCH 087/109] fix: differentiate a batch normalisation
 automatically

The operator has one operand, but its DoDiff used three, so the
interpreting machine panicked. The gradient is added to what the operand
has already.
---
 op_nn.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 549779d..1b92114 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1234,10 +1234,18 @@ func (op *BatchNormOp) String() string {
 func (op *BatchNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
 	diff := &batchnormDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
-	sdv, bdv := getDV(inputs[1], inputs[2])
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, ydv.d, sdv.Value, bdv.Value)
 
-	return err
+	d, err := diff.Do(xdv.Value, ydv.d)
+	if err != nil {
+		return err
+	}
+
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
+		return err
+	}
+
+	return xdv.SetDeriv(d)
 }
 
 // DiffWRT ...
-- 
2.43.0


From 5fe466f0a955dddb37a35dff2aad03b9e0cdef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:07 +0000
Subject: [PATCH 088/109] fix: differentiate batch normalisation of images in
 evaluation mode

The gradient was scaled by the variance of the last batch rather than by
the running variance that the forward pass uses.
---
 op_nn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/op_nn.go b/op_nn.go
index 1b92114..b2b96f4 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1809,6 +1809,9 @@ func (op *batchnormDiffOp) f64s(input, prealloc, outGrad *tensor.Dense) (err err
 			}
 
 			invstd := 1 / math.Sqrt(float64(saveVariance[c])/float64(n)+float64(op.epsilon))
+			if !op.training {
+				invstd = 1 / math.Sqrt(runningVar[c]+op.epsilon)
+			}
 			k := float64(dotp*invstd*invstd) / float64(n)
 
 			// grad_mean = dySum / N
@@ -1920,6 +1923,9 @@ func (op *batchnormDiffOp) f32s(input, prealloc, outGrad *tensor.Dense) (err err
 			}
 
 			invstd := 1 / math32.Sqrt(saveVariance[c]/float32(n)+float32(op.epsilon))
+			if !op.training {
+				invstd = 1 / math32.Sqrt(runningVar[c]+float32(op.epsilon))
+			}
 			k := float32(dotp*invstd*invstd) / float32(n)
 
 			// grad_mean = dySum / N
-- 
2.43.0


From 4ee4d6c3d70d4d442d7fc38d6a8bcddc305dca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:39 +0000
Subject: [PATCH 089/109] fix: return from running an empty graph on the
 concurrent machine

The run waited for the first node to report, also when there was none.
---
 x/vm/machine.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x/vm/machine.go b/x/vm/machine.go
index 4fffe03..5ec8101 100644
--- a/x/vm/machine.go
+++ b/x/vm/machine.go
@@ -159,16 +159,13 @@ func (m *Machine) runAllNodes(ctx context.Context) error {
 		}(m.nodes[i])
 	}
 	errs := make([]nodeError, 0)
-	for e := range errC {
-		total--
+	for ; total > 0; total-- {
+		e := <-errC
 		if e.err != nil {
 			errs = append(errs, e)
 			// failfast, on error, cancel
 			cancel()
 		}
-		if total == 0 {
-			break
-		}
 	}
 	cancel()
 	close(errC)
-- 
2.43.0


From aa4669c2029e3baeea5299d8dab91847c862033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:26 +0000
Subject: [PATCH 090/109] fix: constant tensors have no operands

A constant tensor claimed to have one operand. The concurrent machine
waited for it and never came to an end.
---
 op.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op.go b/op.go
index 671a5ff..e89a9f5 100644
--- a/op.go
+++ b/op.go
@@ -265,7 +265,7 @@ type constantTensor struct {
 	v tensor.Tensor
 }
 
-func (c constantTensor) Arity() int                                   { return 1 }
+func (c constantTensor) Arity() int                                   { return 0 }
 func (c constantTensor) Type() hm.Type                                { return TypeOf(c.v) }
 func (c constantTensor) InferShape(...DimSizer) (tensor.Shape, error) { return c.v.Shape(), nil }
 
-- 
2.43.0


From d08a7ca496f5d1bdce435832691d730aae1e7da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:26 +0000
Subject: [PATCH 091/109] fix: run operators of any arity on the concurrent
 machine

Making a machine for a graph with a concatenation panicked: the operator
gives -1 as its arity.
---
 x/vm/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/vm/node.go b/x/vm/node.go
index 7d6f577..14ccecb 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -111,10 +111,15 @@ func newOp(n *gorgonia.Node, hasOutputChan bool) *node {
 		outputC = make(chan gorgonia.Value, 0)
 
 	}
+	arity := n.Op().Arity()
+	if arity < 0 {
+		// any number of operands
+		arity = n.Graph().From(n.ID()).Len()
+	}
 	return &node{
 		id:          n.ID(),
 		op:          n.Op(),
-		inputValues: make([]gorgonia.Value, n.Op().Arity()),
+		inputValues: make([]gorgonia.Value, arity),
 		inputC:      make(chan ioValue, 0),
 		outputC:     outputC,
 	}
-- 
2.43.0


From 4c63bb157b15a83d7688705d8baddef1a3211993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:58 +0000
Subject: [PATCH 092/109] fix: do not transpose the operands of a product in
 place

A product with a transposed operand transposed that operand itself and
turned it back afterwards. On the concurrent machine other operators saw
it in between and failed or computed nonsense.
---
 op_math.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/op_math.go b/op_math.go
index 9c8130f..3d4b3d0 100644
--- a/op_math.go
+++ b/op_math.go
@@ -775,21 +775,15 @@ func (op linAlgBinOp) do(inputs []Value, opts ...tensor.FuncOpt) (retVal Value,
 	a, b := inputs[0].(tensor.Tensor), inputs[1].(tensor.Tensor)
 
 	if op.transA && op.āBinaryOperator != batchedMatMulOperator {
-		if err = a.T(); err != nil {
+		if a, err = transposed(a); err != nil {
 			return nil, errors.Wrap(err, tFail)
 		}
-
-		// untranspose
-		defer a.T()
 	}
 
 	if op.transB && op.āBinaryOperator != batchedMatMulOperator {
-		if err = b.T(); err != nil {
+		if b, err = transposed(b); err != nil {
 			return nil, errors.Wrap(err, tFail)
 		}
-
-		// untranspose
-		defer b.T()
 	}
 
 	switch op.āBinaryOperator {
@@ -819,6 +813,16 @@ func (op linAlgBinOp) do(inputs []Value, opts ...tensor.FuncOpt) (retVal Value,
 	return retVal, nil
 }
 
+// transposed returns a transposed tensor and leaves t, which may be in use elsewhere, as it is.
+func transposed(t tensor.Tensor) (tensor.Tensor, error) {
+	if d, ok := t.(*tensor.Dense); ok {
+		t = d.ShallowClone() // shares the data
+	} else {
+		t = t.Clone().(tensor.Tensor)
+	}
+	return t, t.T()
+}
+
 func (op linAlgBinOp) preallocBatchMatMul(incr bool, prealloc Value, inputs ...Value) (retVal Value, err error) {
 	if err = checkArity(op, len(inputs)); err != nil {
 		return
-- 
2.43.0


From 9791c139b5ce5af2bacafdc4b0917ca45ac525dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:07 +0000
Subject: [PATCH 093/109] fix: do not write to constants shared between graphs

---
 graph.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index b16615e..8aea93b 100644
--- a/graph.go
+++ b/graph.go
@@ -150,6 +150,8 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 				return node
 			}
 		}
+		// constants are shared between graphs, so the graph gets its own copy
+		n = n.clone()
 	}
 	hash := n.Hashcode()
 	if existing, ok := g.byHash[hash]; ok {
@@ -186,10 +188,9 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 	return n
 }
 
-// ownConstant makes a copy of a constant that belongs to g. Other nodes are returned as they are.
+// ownConstant records that a constant belongs to g. Other nodes are returned as they are.
 func (g *ExprGraph) ownConstant(n *Node) *Node {
 	if n.isConstant() {
-		n = n.clone()
 		g.constants = g.constants.Add(n)
 		n.g = g
 	}
-- 
2.43.0


From aef6d0eb0658d01b22a6b6878032d9c5dde4881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:27:07 +0000
Subject: [PATCH 094/109] fix: make group identifiers safe to create
 concurrently

---
 internal/encoding/groups.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/encoding/groups.go b/internal/encoding/groups.go
index 5581e36..31111d3 100644
--- a/internal/encoding/groups.go
+++ b/internal/encoding/groups.go
@@ -1,14 +1,15 @@
 package encoding
 
-var groupIndex int
+import "sync/atomic"
+
+var groupIndex int64
 
 // NewGroup creates a new group with a generated ID
 func NewGroup(name string) Group {
 	g := Group{
-		ID:   groupIndex,
+		ID:   int(atomic.AddInt64(&groupIndex, 1) - 1),
 		Name: name,
 	}
-	groupIndex++
 	return g
 }
 
-- 
2.43.0


From 0be3d3d89d74a8be3da67c9139951d4b2f0277d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:48 +0000
Subject: [PATCH 095/109] fix: add the automatic gradients of pooling and
 im2col to what their operand has

An operand with another use lost what that use had contributed.
---
 op_avg_pool.go | 10 ++++++++--
 op_nn.go       | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index 9dd68bf..85dbc67 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -216,10 +216,16 @@ func (op *avgPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &avgPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
-	return
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if d, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return inputDV.SetDeriv(d)
 }
 
 func (op *avgPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
diff --git a/op_nn.go b/op_nn.go
index b2b96f4..71a5bc2 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -284,10 +284,16 @@ func (op im2colOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 		im2colOp: op,
 	}
 
-	if _, err = diffOp.UsePreallocDo(imv.d, colv.d); err != nil {
+	var d Value
+	if d, err = diffOp.Do(colv.d); err != nil {
 		return errors.Wrapf(err, doFail, diffOp)
 	}
-	return
+
+	add := newEBOByType(addOpType, TypeOf(imv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(imv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return imv.SetDeriv(d)
 }
 
 func (op im2colOp) calcShape(s tensor.Shape) (retVal tensor.Shape) {
@@ -783,10 +789,16 @@ func (op *maxPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &maxPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
-	return
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if d, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return inputDV.SetDeriv(d)
 }
 
 func (op *maxPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
-- 
2.43.0


From b9457dfea9a1a59cad3cae675761756039e8fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:58:53 +0000
Subject: [PATCH 096/109] fix: tell pooling with different padding apart

The hash of a pooling operator left out the padding after the rows and
columns. Two poolings of the same input that differed only there were
taken to be the same node.
---
 op_avg_pool.go | 8 ++++----
 op_nn.go       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index 85dbc67..3d0a246 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -159,9 +159,9 @@ func (op *avgPoolOp) ReturnsPtr() bool     { return false }
 func (op *avgPoolOp) CallsExtern() bool    { return false }
 func (op *avgPoolOp) OverwritesInput() int { return -1 }
 func (op *avgPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *avgPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -421,9 +421,9 @@ func (op *avgPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *avgPoolDiffOp) CallsExtern() bool    { return false }
 func (op *avgPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *avgPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *avgPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_nn.go b/op_nn.go
index 71a5bc2..500789c 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -732,9 +732,9 @@ func (op *maxPoolOp) ReturnsPtr() bool     { return false }
 func (op *maxPoolOp) CallsExtern() bool    { return false }
 func (op *maxPoolOp) OverwritesInput() int { return -1 }
 func (op *maxPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *maxPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -999,9 +999,9 @@ func (op *maxPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *maxPoolDiffOp) CallsExtern() bool    { return false }
 func (op *maxPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *maxPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *maxPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From a674e83f5eac6740d70d09935a97bef80a91da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:55 +0000
Subject: [PATCH 097/109] fix: do not merge nodes whose hashes collide when
 compiling

Value numbering took nodes for the same when their 32-bit hashes were equal.
A compiled graph in which two hashes collided computed wrong values or failed.
---
 analysis.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/analysis.go b/analysis.go
index 2f46ca7..9a4d588 100644
--- a/analysis.go
+++ b/analysis.go
@@ -36,7 +36,10 @@ func (df *dataflow) vn(n *Node) (retVal *Node, unique bool) {
 	node, ok := df.uniques[n.Hashcode()]
 
 	if ok {
-		return node, false
+		if nodeEq(node, n) {
+			return node, false
+		}
+		return n, true // different nodes may have the same hash
 	}
 
 	compileLogf("adding a new unique")
-- 
2.43.0


From 72c09613a20c97bdeba9d9f2c7605b81ee00bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:39:59 +0000
Subject: [PATCH 098/109] fix: do not recycle memory that is in use when
 unbinding nodes

UnbindAllNonInputs put the tensors of all nodes into the pool although nodes
share tensors with each other, with inputs and with values already read. Later
operations then wrote to memory that was in use, and runs failed or panicked.
---
 node.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/node.go b/node.go
index 74f6281..9871f39 100644
--- a/node.go
+++ b/node.go
@@ -719,17 +719,7 @@ func (n *Node) bindCopy(v Value) (err error) {
 
 // unbind releases the values back to the pool
 func (n *Node) unbind() {
-	if n.boundTo == nil {
-		return
-	}
-
-	if dv, ok := n.boundTo.(*dualValue); ok {
-		returnDV(dv)
-	}
-
-	if t, ok := n.boundTo.(tensor.Tensor); ok {
-		returnTensor(t)
-	}
+	// the value is not recycled: other nodes, machines and callers may hold it too
 	n.boundTo = nil
 }
 
-- 
2.43.0


From 91a0309760ddf28222d919a00f4b5287c6784365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:33 +0000
Subject: [PATCH 099/109] fix: sample float32 weights of GlorotU from a uniform
 distribution

GlorotEtAlU32 returned samples of a normal distribution, which are not within
the bounds of the uniform one.
---
 weights.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 1df5ac9..57b2789 100644
--- a/weights.go
+++ b/weights.go
@@ -435,7 +435,7 @@ func GlorotEtAlU64(gain float64, s ...int) []float64 {
 //		math.Sqrt(2.0) for gain for weights that will be used in ReLU units
 //		math.Sqrt(2.0 / (1+alpha*alpha)) for ReLU that are leaky with alpha
 func GlorotEtAlU32(gain float64, s ...int) []float32 {
-	f64 := GlorotEtAlN64(gain, s...)
+	f64 := GlorotEtAlU64(gain, s...)
 	retVal := make([]float32, len(f64))
 	for i, v := range f64 {
 		retVal[i] = float32(v)
-- 
2.43.0


From 637daab6088d932231a6147a069bf1c8374a77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:33 +0000
Subject: [PATCH 100/109] fix: let Ones initialise scalars

The initialiser returned a single number instead of a slice for scalar nodes,
which made WithInit panic.
---
 weights.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 57b2789..0dda149 100644
--- a/weights.go
+++ b/weights.go
@@ -40,7 +40,9 @@ func Zeroes() InitWFn {
 
 // Ones creates an InitWfn that populates a Value with ones. See Zeroes() for more explanation.
 func Ones() InitWFn {
-	return func(dt tensor.Dtype, s ...int) interface{} { return ones(dt, s...).Data() }
+	return func(dt tensor.Dtype, s ...int) interface{} {
+		return tensor.Ones(dt, tensor.Shape(s).TotalSize()).Data()
+	}
 }
 
 // RangedFrom creates an InitWFn that populates a Value starting with the provided start, increamenting the number for each element in the value by 1
-- 
2.43.0


From 0dde8b9b4ee3ec9f01b45d36422271da7f8236b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:33 +0000
Subject: [PATCH 101/109] fix: tell random nodes with different distributions
 apart

Random nodes count as inputs, which were told apart by name only. As they have
no names, every random node of one type and shape was the first such node.
---
 equalities.go | 4 ++++
 node.go       | 4 ++--
 op_nn.go      | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/equalities.go b/equalities.go
index 2794c1c..9efd044 100644
--- a/equalities.go
+++ b/equalities.go
@@ -195,6 +195,10 @@ func nodeEq(a, b *Node) bool {
 		if !b.isInput() {
 			return false
 		}
+		if a.isRandom() || b.isRandom() {
+			// random nodes have no names, what they draw from tells them apart
+			return a.isRandom() && b.isRandom() && a.name == b.name && a.op.Hashcode() == b.op.Hashcode()
+		}
 		return a.name == b.name
 	}
 
diff --git a/node.go b/node.go
index 9871f39..76753d5 100644
--- a/node.go
+++ b/node.go
@@ -535,8 +535,8 @@ func (n *Node) WriteHash(h hash.Hash32) {
 
 	if n.isInput() {
 		h.Write([]byte(n.name))
-	} else {
-
+	}
+	if !n.isInput() || n.isRandom() {
 		n.op.WriteHash(h)
 	}
 
diff --git a/op_nn.go b/op_nn.go
index 500789c..a69cca8 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -149,7 +149,7 @@ func (op randomOp) ReturnsPtr() bool     { return false }
 func (op randomOp) CallsExtern() bool    { return false }
 func (op randomOp) OverwritesInput() int { return -1 }
 func (op randomOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "%d%v%f%f", op.which, op.shape, op.a, op.b)
+	fmt.Fprintf(h, "%d%v%v,%v", op.which, op.shape, op.a, op.b)
 }
 
 func (op randomOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From f46c5b10725a646cd3fb853e5bef69efa2fb4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:42 +0000
Subject: [PATCH 102/109] fix: differentiate every cost on its own

A node that had been differentiated before was skipped. A second
request for gradients in the same graph got the gradients of the first
cost, lost some of its terms, or failed.
---
 differentiation.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/differentiation.go b/differentiation.go
index 6e0e766..8ca8a80 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -215,12 +215,6 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 			continue
 		}
 
-		if node.deriv != nil {
-			symdiffLogf("skipping %x - previously differentiated", node.ID())
-			nodeGradMap[node] = append(nodeGradMap[node], node.deriv)
-			continue
-		}
-
 		symdiffLogf("Working on %x %v", node.ID(), node)
 		enterLogScope()
 
-- 
2.43.0


From 641a0946cceb3da622500d20f6fc038225bc9fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:42 +0000
Subject: [PATCH 103/109] fix: add up the gradients of an output that is given
 twice

---
 differentiation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differentiation.go b/differentiation.go
index 8ca8a80..8a748f9 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -195,7 +195,7 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 	nodeGradMap := make(map[*Node]Nodes)
 	for i, n := range outputs {
 		symdiffLogf("Adding outputs for %x", n.ID())
-		nodeGradMap[n] = Nodes{gradOutputs[i]}
+		nodeGradMap[n] = append(nodeGradMap[n], gradOutputs[i])
 	}
 
 	// "active" nodes are the ones that are differentially influenced by the inputs
-- 
2.43.0


From fa0979d542babf6941d54e912e75c9e99a1287b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:42 +0000
Subject: [PATCH 104/109] fix: let nodes the cost does not depend on be
 undifferentiable

The gradient expressions of an earlier request are such nodes. Their
operators made the next request panic or fail.
---
 differentiation.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/differentiation.go b/differentiation.go
index 8a748f9..3315507 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -160,6 +160,19 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 	if sortedNodes, err = Sort(g); err != nil {
 		return nil, errors.Wrap(err, sortFail)
 	}
+
+	// only what the outputs are computed from takes part in the differentiation
+	needed := outputs.mapSet()
+	var below Nodes
+	for _, n := range sortedNodes {
+		if needed.Contains(n) {
+			below = append(below, n)
+			for _, child := range n.children {
+				needed.Add(child)
+			}
+		}
+	}
+	sortedNodes = below
 	symdiffLogf("sorted nodes: %v", sortedNodes)
 	symdiffLogf("sorted nodes: %d", sortedNodes)
 
-- 
2.43.0


From 00f07f6798d4493f272cc31298d96fb849aadbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:50 +0000
Subject: [PATCH 105/109] fix: reduce inner axes of tensors of rank four and
 more

Package tensor reads the wrong elements, or crashes, when it reduces
along an inner axis of such a tensor. Sums, maxima and the gradients of
broadcasts over images were affected. The axes around the reduced one
are now merged first.
---
 op_reduction.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/op_reduction.go b/op_reduction.go
index f39276c..91ca31c 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -11,6 +11,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash"
+	"sort"
 	"strings"
 
 	"github.com/chewxy/hm"
@@ -75,7 +76,7 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 	switch t := at.(type) {
 	case *tensor.Dense:
 		var ret *tensor.Dense
-		if ret, err = f(t, along...); err == nil {
+		if ret, err = reduceDense(f, t, along); err == nil {
 			if ret.IsScalar() {
 				retVal, _ = anyToScalar(ret.ScalarValue())
 			} else {
@@ -98,6 +99,34 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 
 }
 
+// reduceDense applies the reduction f along the given axes.
+//
+// Package tensor reduces along inner axes only when there are no more than three axes.
+// The axes around the one to be reduced are merged when there are more.
+func reduceDense(f func(*tensor.Dense, ...int) (*tensor.Dense, error), t *tensor.Dense, along []int) (retVal *tensor.Dense, err error) {
+	if t.Dims() <= 3 || len(along) == 0 {
+		return f(t, along...)
+	}
+	if len(along) == t.Dims() {
+		return f(t)
+	}
+
+	order := append([]int{}, along...)
+	sort.Sort(sort.Reverse(sort.IntSlice(order)))
+	shape := t.Shape().Clone()
+	retVal = t.Clone().(*tensor.Dense)
+	for _, axis := range order {
+		if err = retVal.Reshape(shape[:axis].TotalSize(), shape[axis], shape[axis+1:].TotalSize()); err != nil {
+			return nil, err
+		}
+		if retVal, err = f(retVal, 1); err != nil {
+			return nil, err
+		}
+		shape = append(shape[:axis], shape[axis+1:]...)
+	}
+	return retVal, retVal.Reshape(shape...)
+}
+
 type maxOp struct {
 	along axes
 	d     int
-- 
2.43.0


From 6ad70993bfc078a9657427665db4403a48c24828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:09 +0000
Subject: [PATCH 106/109] fix: report that costs which are not floating point
 numbers have no gradient

---
 gorgonia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorgonia.go b/gorgonia.go
index aa567ec..0fd553f 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -235,7 +235,7 @@ func Grad(cost *Node, WRTs ...*Node) (retVal Nodes, err error) {
 	case Float32:
 		gradOut = onef32
 	default:
-		return nil, errors.Wrapf(err, "%s not yet implemented for %v of %T", dt.String(), "Grad()'s gradOut", gradOut)
+		return nil, errors.Errorf(nyiFail, "Grad()", dt)
 	}
 
 	gradOut = cost.g.AddNode(gradOut)
-- 
2.43.0


From a5cf84ae272ac5b09d9fc2059797788cb4c06fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:21:11 +0000
Subject: [PATCH 107/109] fix: differentiate what a slice of a gradient was
 taken from, not what gives it its shape

The node that puts a gradient back in the place of a slice depends on the
gradient; its other input is only there for its shape. It was the other way
round, so gradients of gradients of slices were wrong.
---
 op_tensor.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 4280c0b..6506b6f 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -719,7 +719,8 @@ func (op sliceIncrOp) DiffWRT(i int) []bool {
 		panic(err)
 	}
 
-	return []bool{true, false}
+	// the first input only provides the shape
+	return []bool{false, true}
 }
 
 func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal Nodes, err error) {
@@ -727,19 +728,13 @@ func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal
 	if slicedRes, err = ApplyOp(op.sliceOp, gradNode); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	retVal = Nodes{gradNode, slicedRes}
+	retVal = Nodes{nil, slicedRes}
 
 	return
 }
 
 func (op sliceIncrOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
-	xdv, ydv, zdv := getDV3(inputs[0], inputs[1], output)
-
-	// dzdx
-	add := newElemBinOp(addOpType, inputs[0], output)
-	if _, err = add.UnsafeDo(xdv.d, zdv.d); err != nil {
-		return errors.Wrapf(err, unsafeDoFail, add)
-	}
+	ydv, zdv := getDV(inputs[1], output)
 
 	// dzdy
 	var d Value
@@ -747,11 +742,11 @@ func (op sliceIncrOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (
 		return errors.Wrapf(err, doFail, op)
 	}
 
-	add = newElemBinOp(addOpType, inputs[1], output)
-	if _, err = add.UnsafeDo(ydv.d, d); err != nil {
-		return errors.Wrapf(err, doFail, add)
+	add := newEBOByType(addOpType, TypeOf(ydv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(ydv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
 	}
-	return
+	return ydv.SetDeriv(d)
 }
 
 func (op sliceIncrOp) Do(inputs ...Value) (retVal Value, err error) {
-- 
2.43.0


From b6f4d27c1ca54b0bdbb708025a8e6d77a5bfd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:25:56 +0000
Subject: [PATCH 108/109] fix: reshape to and from scalars

Reshaping a tensor of one element to a shape without dimensions gave a tensor,
where its type says scalar, and the next operator failed. Reshaping a scalar
gave a tensor that shared the scalar's memory. The derivative panicked when the
result was a scalar.
---
 op_tensor.go | 56 ++++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 6506b6f..b3a5e32 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1207,16 +1207,9 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 			return nil, errors.Errorf("Shape mismatch. Input shape is %v. Expected %v", val.Shape(), op.from)
 		}
 
-		if err := val.(tensor.Tensor).Reshape(op.to...); err != nil {
-			return nil, err
-		}
-		return val, nil
+		return op.reshape(val.(tensor.Tensor))
 	case Scalar:
-		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
-		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
-			return nil, err
-		}
-		return v0, nil
+		return op.reshapeScalar(vals[0])
 	default:
 		return nil, errors.Errorf(nyiTypeFail, "reshape.Do", vals[0])
 	}
@@ -1238,25 +1231,36 @@ func (op reshapeOp) UnsafeDo(vals ...Value) (Value, error) {
 	if err := checkArity(op, len(vals)); err != nil {
 		return nil, err
 	}
-	var val Value
-	var err error
-	switch vals[0].(type) {
+	switch val := vals[0].(type) {
 	case tensor.Tensor:
-		val = vals[0]
-		err = val.(tensor.Tensor).Reshape(op.to...)
-
-		return val, err
+		return op.reshape(val)
 	case Scalar:
-		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
-		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
-			return nil, err
-		}
-		return v0, nil
+		return op.reshapeScalar(val)
 	default:
 		return nil, errors.Errorf(nyiTypeFail, "reshape.Do", vals[0])
 	}
 }
 
+// reshape gives t its new shape. A value without dimensions is a scalar.
+func (op reshapeOp) reshape(t tensor.Tensor) (Value, error) {
+	if err := t.Reshape(op.to...); err != nil {
+		return nil, err
+	}
+	if op.to.Dims() == 0 {
+		retVal, _ := anyToScalar(t.ScalarValue())
+		return retVal, nil
+	}
+	return t, nil
+}
+
+func (op reshapeOp) reshapeScalar(v Value) (Value, error) {
+	if op.to.Dims() == 0 {
+		return CloneValue(v)
+	}
+	// the tensor does not share the memory of the scalar
+	return op.reshape(tensor.New(tensor.FromScalar(v.Data())))
+}
+
 func (op reshapeOp) CUDADo(extern External, dev Device, prealloc Value, vals ...Value) (retVal Value, err error) {
 	if err := checkArity(op, len(vals)); err != nil {
 		return nil, err
@@ -1299,13 +1303,9 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if grad, err = CloneValue(grad); err != nil {
 		return errors.Wrapf(err, cloneFail, grad)
 	}
-	T := grad.(tensor.Tensor)
-	if err = T.Reshape(op.from...); err != nil {
-		return
-	}
-	var d Value = T
-	if T.IsScalar() {
-		d, _ = anyToScalar(T.ScalarValue())
+	var d Value
+	if d, err = (reshapeOp{from: op.to, to: op.from}).UnsafeDo(grad); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, op)
 	}
 
 	// the input may be used elsewhere: add to the gradient it has already got
-- 
2.43.0


From 71bc4d0440810b8769bb421c45dde4080c245c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:30 +0000
Subject: [PATCH 109/109] fix: run graphs of integer tensors on the
 interpreting machine

The outermost nodes of a graph could not be bound when they were tensors of
integers.
---
 dual.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dual.go b/dual.go
index aa141e3..4d63cc3 100644
--- a/dual.go
+++ b/dual.go
@@ -224,6 +224,14 @@ func dvUnitVarManaged(v Value, op *ExternalOp) (*dualValue, error) {
 			d.Memset(1.0)
 		case tensor.Float32:
 			d.Memset(float32(1))
+		case tensor.Int:
+			d.Memset(1)
+		case tensor.Int64:
+			d.Memset(int64(1))
+		case tensor.Int32:
+			d.Memset(int32(1))
+		case tensor.Uint8:
+			d.Memset(uint8(1))
 		case tensor.Bool:
 			d.Memset(true)
 		default:
-- 
2.43.0

