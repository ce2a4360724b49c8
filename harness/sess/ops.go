package sess

import (
	"encoding/json"
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

func ints(p json.RawMessage) (r []int) {
	if err := json.Unmarshal(p, &r); err != nil {
		panic(err)
	}
	return
}
func ints2(p json.RawMessage) (r [][]int) {
	if err := json.Unmarshal(p, &r); err != nil {
		panic(err)
	}
	return
}
func bools(p json.RawMessage) (r []bool) {
	if err := json.Unmarshal(p, &r); err != nil {
		panic(err)
	}
	return
}
func bytesOf(q []int) []byte {
	r := make([]byte, len(q))
	for i := range q {
		r[i] = byte(q[i])
	}
	return r
}

var unary = map[string]func(*G.Node) (*G.Node, error){
	"Abs": G.Abs, "Sign": G.Sign, "Ceil": G.Ceil, "Floor": G.Floor, "Sin": G.Sin, "Cos": G.Cos,
	"Exp": G.Exp, "Log": G.Log, "Log2": G.Log2, "Neg": G.Neg, "Square": G.Square, "Sqrt": G.Sqrt,
	"Inverse": G.Inverse, "InverseSqrt": G.InverseSqrt, "Cube": G.Cube, "Tanh": G.Tanh,
	"Sigmoid": G.Sigmoid, "Log1p": G.Log1p, "Expm1": G.Expm1, "Softplus": G.Softplus,
	"Rectify": G.Rectify, "Mish": G.Mish, "Ravel": G.Ravel, "GlobalAveragePool2D": G.GlobalAveragePool2D,
}
var binary = map[string]func(a, b *G.Node) (*G.Node, error){
	"Add": G.Add, "Sub": G.Sub, "HadamardProd": G.HadamardProd, "HadamardDiv": G.HadamardDiv, "Pow": G.Pow,
	"Mul": G.Mul, "OuterProd": G.OuterProd, "MinBetween": G.MinBetween, "MaxBetween": G.MaxBetween,
	"Div": G.Div,
}
var cmp = map[string]func(a, b *G.Node, retSame bool) (*G.Node, error){
	"Lt": G.Lt, "Gt": G.Gt, "Lte": G.Lte, "Gte": G.Gte, "Eq": G.Eq, "Ne": G.Ne,
}
var broad = map[string]func(a, b *G.Node, l, r []byte) (*G.Node, error){
	"BroadcastAdd": G.BroadcastAdd, "BroadcastSub": G.BroadcastSub, "BroadcastHadamardProd": G.BroadcastHadamardProd,
	"BroadcastHadamardDiv": G.BroadcastHadamardDiv, "BroadcastPow": G.BroadcastPow,
}
var broadCmp = map[string]func(a, b *G.Node, retSame bool, l, r []byte) (*G.Node, error){
	"BroadcastLt": G.BroadcastLt, "BroadcastGt": G.BroadcastGt, "BroadcastLte": G.BroadcastLte,
	"BroadcastGte": G.BroadcastGte, "BroadcastEq": G.BroadcastEq, "BroadcastNe": G.BroadcastNe,
}

// Apply calls the public operator named op.
func Apply(op string, p json.RawMessage, a []*G.Node) (*G.Node, error) {
	if f, ok := unary[op]; ok {
		return f(a[0])
	}
	if f, ok := binary[op]; ok {
		return f(a[0], a[1])
	}
	if f, ok := cmp[op]; ok {
		return f(a[0], a[1], bools(p)[0])
	}
	if op == "FlakyId" || op == "FlakyAdd" {
		return G.ApplyOp(wrapFlaky(&flaky{arity: len(a), mode: ints(p)[0]}), a...)
	}
	if f, ok := broad[op]; ok {
		q := ints2(p)
		return f(a[0], a[1], bytesOf(q[0]), bytesOf(q[1]))
	}
	if f, ok := broadCmp[op]; ok {
		q := ints2(p)
		return f(a[0], a[1], len(q) < 3 || q[2][0] == 1, bytesOf(q[0]), bytesOf(q[1]))
	}
	switch op {
	case "LeakyRelu":
		return G.LeakyRelu(a[0], 0.25)
	case "Sum":
		return G.Sum(a[0], ints(p)...)
	case "Max":
		return G.Max(a[0], ints(p)...)
	case "Mean":
		return G.Mean(a[0], ints(p)...)
	case "Norm":
		q := ints(p)
		return G.Norm(a[0], q[0], q[1])
	case "Transpose":
		return G.Transpose(a[0], ints(p)...)
	case "Reshape":
		return G.Reshape(a[0], tensor.Shape(ints(p)))
	case "Slice":
		return G.Slice(a[0], slices(ints2(p))...)
	case "At":
		return G.At(a[0], ints(p)...)
	case "SizeOf":
		return G.SizeOf(ints(p)[0], a[0])
	case "BatchedMatMul":
		q := bools(p)
		return G.BatchedMatMul(a[0], a[1], q[0], q[1])
	case "Tensordot":
		q := ints2(p)
		return G.Tensordot(q[0], q[1], a[0], a[1])
	case "AutoAdd":
		return G.Auto(G.BroadcastAdd, a[0], a[1])
	case "AutoSub":
		return G.Auto(G.BroadcastSub, a[0], a[1])
	case "AutoHadamardProd":
		return G.Auto(G.BroadcastHadamardProd, a[0], a[1])
	case "AutoHadamardDiv":
		return G.Auto(G.BroadcastHadamardDiv, a[0], a[1])
	case "XentSigmoid":
		s, err := G.Sigmoid(a[0])
		if err != nil {
			return nil, err
		}
		return G.BinaryXent(s, a[1])
	case "ConvRT":
		dt := a[0].Dtype()
		x, err := G.ConvType(a[0], dt, tensor.Int)
		if err != nil {
			return nil, err
		}
		return G.ConvType(x, tensor.Int, dt)
	case "DiagFlat":
		return G.DiagFlat(a[0])
	case "Unconcat":
		q := ints(p)
		ns, err := G.Unconcat(a[0], q[0], q[1])
		if err != nil {
			return nil, err
		}
		if len(ns) != q[1] {
			return nil, fmt.Errorf("%d pieces instead of %d", len(ns), q[1])
		}
		return ns[q[2]], nil
	case "KeepDimsSum":
		return G.KeepDims(a[0], true, func(x *G.Node) (*G.Node, error) { return G.Sum(x, ints(p)[0]) })
	case "KeepDimsMean":
		q := ints(p)
		return G.KeepDims(a[0], q[1] == 1, func(x *G.Node) (*G.Node, error) { return G.Mean(x, q[0]) })
	case "ByIndices":
		q := ints2(p)
		ix := G.NewTensor(a[0].Graph(), tensor.Int, 1, G.WithShape(len(q[1])), G.WithName(fmt.Sprintf("idx%v", q[1])),
			G.WithValue(tensor.New(tensor.WithShape(len(q[1])), tensor.WithBacking(append([]int(nil), q[1]...)))))
		return G.ByIndices(a[0], ix, q[0][0])
	case "LogSumExp":
		return G.LogSumExp(a[0], ints(p)[0])
	case "Sparsemax":
		return G.Sparsemax(a[0])
	case "ReduceAdd":
		return G.ReduceAdd(G.Nodes(a))
	case "ReduceMul":
		return G.ReduceMul(G.Nodes(a))
	case "Conv1d":
		q := ints(p)
		return G.Conv1d(a[0], a[1], a[1].Shape()[3], q[0], q[1], q[2])
	case "AveragePool2D":
		q := ints2(p)
		return G.AveragePool2D(a[0], tensor.Shape(q[0]), q[1], q[2])
	case "AveragePool1D":
		q := ints(p)
		return G.AveragePool1D(a[0], q[0], q[1], q[2])
	case "MaxPool1D":
		q := ints(p)
		return G.MaxPool1D(a[0], q[0], q[1], q[2])
	case "Im2Col":
		q := ints2(p)
		return G.Im2Col(a[0], tensor.Shape(q[0]), tensor.Shape(q[1]), tensor.Shape(q[2]), tensor.Shape(q[3]))
	case "GroupNorm":
		return G.GroupNorm(a[0], a[1], a[2], ints(p)[0], a[0].Shape()[1], 1)
	case "Concat", "Concat3":
		return G.Concat(ints(p)[0], a...)
	case "SoftMax":
		return G.SoftMax(a[0], ints(p)...)
	case "LogSoftMax":
		return G.LogSoftMax(a[0], ints(p)...)
	case "Conv2d":
		q := ints2(p)
		ks := a[1].Shape()
		return G.Conv2d(a[0], a[1], tensor.Shape{ks[2], ks[3]}, q[0], q[1], q[2])
	case "MaxPool2D":
		q := ints2(p)
		return G.MaxPool2D(a[0], tensor.Shape(q[0]), q[1], q[2])
	case "Upsample2D":
		return G.Upsample2D(a[0], ints(p)[0])
	}
	return nil, fmt.Errorf("harness: unknown operator %q", op)
}

func slices(q [][]int) []tensor.Slice {
	r := make([]tensor.Slice, len(q))
	for i, s := range q {
		switch {
		case len(s) == 0:
			r[i] = nil
		case s[2] == 1 && s[1] == s[0]+1:
			r[i] = G.S(s[0])
		case s[2] == 1:
			r[i] = G.S(s[0], s[1])
		default:
			r[i] = G.S(s[0], s[1], s[2])
		}
	}
	return r
}

// opaque applies operators of which the specification only says which
// applications are one node
func opaque(op string, p []int, a []*G.Node) (*G.Node, error) {
	f := func(k int) float64 { return float64(p[k]) / 1000 }
	switch op {
	case "Dropout":
		return G.Dropout(a[0], f(0))
	case "BatchNorm":
		n, _, _, _, err := G.BatchNorm(a[0], a[1], a[2], f(0), f(1))
		return n, err
	case "GroupNorm":
		return G.GroupNorm(a[0], a[1], a[2], p[0], a[0].Shape()[1], f(1))
	case "Sparsemax":
		return G.Sparsemax(a[0], p[0])
	case "CTCLoss":
		return G.CTCLoss(a[0], a[1], a[2], a[3], G.Reduction(p[0]))
	case "YOLO":
		anchors := []float32{10, 13, 16, 30, 33, 23}
		masks := [][]int{{0, 1}, {1, 0}}
		return G.YOLOv3(a[0], anchors, masks[p[3]], p[0], p[1], float32(f(2)))
	case "LeakyRelu":
		return G.LeakyRelu(a[0], f(0))
	}
	drive.Fail("no operator %s", op)
	return nil, nil
}
