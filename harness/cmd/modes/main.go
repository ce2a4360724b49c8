// modes replays histories of layers that have a training and an evaluation mode.
package main

import (
	"encoding/json"
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
	"verif/sess"
	"verif/terms"
)

type layer struct {
	K     string    `json:"k"`
	Mom   []float64 `json:"mom"`
	Eps   []float64 `json:"eps"`
	P     []float64 `json:"p"`
	Ps    []int     `json:"ps"`
	Scale []float64 `json:"scale"`
	Bias  []float64 `json:"bias"`
	Read  bool      `json:"read"`
}

type out struct {
	V    []*terms.Term `json:"v"`
	In   []*terms.Term `json:"in"`
	Drop bool          `json:"drop"`
}

type step struct {
	A      string        `json:"a"`
	Dt     string        `json:"dt"`
	Sh     []int         `json:"sh"`
	Layers []layer       `json:"layers"`
	W      []float64     `json:"w"`
	Grad   string        `json:"grad"`
	Kind   string        `json:"kind"`
	Eval   bool          `json:"eval"`
	L      int           `json:"l"`
	Train  bool          `json:"train"`
	Mean   []float64     `json:"mean"`
	Var    []float64     `json:"var"`
	X      []float64     `json:"x"`
	Outs   []out         `json:"outs"`
	Cost   []*terms.Term `json:"cost"`
	Gx     []*terms.Term `json:"gx"`
	Grads  []gradOf      `json:"grads"`
	Stats  []statOf      `json:"stats"`
}

type gradOf struct {
	L     int           `json:"l"`
	Scale []*terms.Term `json:"scale"`
	Bias  []*terms.Term `json:"bias"`
}
type statOf struct {
	L    int           `json:"l"`
	Mean []*terms.Term `json:"mean"`
	Var  []*terms.Term `json:"var"`
}

// net is the network under test
type net struct {
	st          *step
	u           float64
	g           *G.ExprGraph
	x, w, cost  *G.Node
	in          []*G.Node // of every layer
	out         []*G.Node
	ops         []*G.BatchNormOp
	scale, bias []*G.Node
	outV        []G.Value
	costV       G.Value
	wrt         G.Nodes
	gradV       []G.Value
	vm          G.VM
	kind        string
	eval        bool
	own         map[*G.Node][]float64
	left        map[int64]terms.Num // the running statistics after the last run
}

func (n *net) input(name string, sh []int, v []float64) *G.Node {
	x := G.NewTensor(n.g, sess.Dtype(n.st.Dt), len(sh), G.WithShape(sh...), G.WithName(name), G.WithValue(sess.MakeTensor(n.st.Dt, sh, v)))
	n.own[x] = v
	return x
}

func must(n *G.Node, err error) *G.Node {
	if err != nil {
		panic(buildError{err})
	}
	return n
}

type buildError struct{ error }

func build(st *step) (n *net, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(buildError)
			if !ok {
				panic(r)
			}
			err = b.error
		}
	}()
	n = &net{st: st, g: G.NewGraph(), own: map[*G.Node][]float64{}, left: map[int64]terms.Num{}, u: map[string]float64{"f64": 0x1p-52, "f32": 0x1p-23}[st.Dt]}
	k := 1
	for _, d := range st.Sh {
		k *= d
	}
	n.x = n.input("x", st.Sh, make([]float64, k))
	n.w = n.input("w", st.Sh, st.W)
	n.ops = make([]*G.BatchNormOp, len(st.Layers))
	n.scale = make([]*G.Node, len(st.Layers))
	n.bias = make([]*G.Node, len(st.Layers))
	n.wrt = G.Nodes{n.x}
	h := n.x
	for i, l := range st.Layers {
		n.in = append(n.in, h)
		switch l.K {
		case "bn":
			n.scale[i] = n.input(fmt.Sprintf("scale%d", i), l.Ps, l.Scale)
			n.bias[i] = n.input(fmt.Sprintf("bias%d", i), l.Ps, l.Bias)
			n.wrt = append(n.wrt, n.scale[i], n.bias[i])
			h, _, _, n.ops[i], err = G.BatchNorm(h, n.scale[i], n.bias[i], l.Mom[0]/l.Mom[1], l.Eps[0]/l.Eps[1])
			if err != nil {
				return nil, err
			}
		case "drop":
			h = must(G.Dropout(h, l.P[0]/l.P[1]))
		case "skip":
			h = must(G.Add(h, n.x))
		default:
			h = must(sess.Apply(l.K, nil, []*G.Node{h}))
		}
		n.out = append(n.out, h)
	}
	n.outV = make([]G.Value, len(st.Layers))
	n.cost = must(G.Sum(must(G.HadamardProd(h, n.w))))
	if st.Grad == "sym" {
		gs, err := G.Grad(n.cost, n.wrt...)
		if err != nil {
			return nil, err
		}
		n.gradV = make([]G.Value, len(gs))
		for i := range gs {
			G.Read(gs[i], &n.gradV[i])
		}
	}
	if st.Grad != "auto" {
		for i, l := range st.Layers {
			if l.Read {
				G.Read(n.out[i], &n.outV[i])
			}
		}
		G.Read(n.cost, &n.costV)
	}
	return n, nil
}

func (n *net) trainable(i int) G.TrainModeOp {
	if n.ops[i] != nil {
		return n.ops[i]
	}
	op, ok := n.out[i].Op().(G.TrainModeOp)
	if !ok {
		if n.out[i] == n.in[i] {
			return nil
		}
		drive.Fail("layer %d has no training mode", i)
	}
	return op
}

func replay(raw []byte) (res drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	res.Steps = len(tr)
	k := 0
	res.Finding = drive.Guard(&k, func() *drive.Finding {
		var n *net
		for k = range tr {
			st := &tr[k]
			fail := func(kind, f string, a ...interface{}) *drive.Finding {
				return &drive.Finding{Kind: kind, Step: k, Detail: fmt.Sprintf(f, a...)}
			}
			switch st.A {
			case "net":
				var err error
				if n, err = build(st); err != nil {
					return fail("build", "building the network: %v", err)
				}
				defer func() {
					if n.vm != nil {
						n.vm.Close()
					}
				}()
			case "machine":
				if n.vm != nil {
					n.vm.Close()
				}
				var opts []G.VMOpt
				if st.Eval {
					opts = append(opts, G.EvalMode())
				}
				switch {
				case st.Kind == "tape":
					n.vm = G.NewTapeMachine(n.g, opts...)
				case n.st.Grad == "auto":
					n.vm = G.NewLispMachine(n.g, opts...)
				default:
					n.vm = G.NewLispMachine(n.g, append(opts, G.ExecuteFwdOnly())...)
				}
				n.kind, n.eval = st.Kind, st.Eval
			case "mode":
				if op := n.trainable(st.L - 1); op != nil {
					if err := op.SetTraining(st.Train); err != nil {
						return fail("mode", "SetTraining: %v", err)
					}
				}
			case "stats":
				c := len(st.Mean)
				m, v := sess.MakeTensor(n.st.Dt, []int{c}, st.Mean), sess.MakeTensor(n.st.Dt, []int{c}, st.Var)
				if err := n.ops[st.L-1].SetStats(m, v); err != nil {
					return fail("mode", "SetStats: %v", err)
				}
				// they are copied
				m.Memset(sess.MakeTensor(n.st.Dt, []int{1}, []float64{77}).Get(0))
				v.Memset(sess.MakeTensor(n.st.Dt, []int{1}, []float64{77}).Get(0))
			case "clear":
				if err := n.ops[st.L-1].Reset(); err != nil {
					return fail("mode", "Reset: %v", err)
				}
			case "run":
				if f := n.run(st, &res, fail); f != nil {
					return f
				}
			default:
				drive.Fail("unknown step %q", st.A)
			}
		}
		return nil
	})
	return
}

func (n *net) run(st *step, res *drive.Result, fail func(kind, f string, a ...interface{}) *drive.Finding) *drive.Finding {
	if err := G.Let(n.x, sess.MakeTensor(n.st.Dt, n.st.Sh, st.X)); err != nil {
		return fail("run", "Let: %v", err)
	}
	n.own[n.x] = st.X
	if err := n.vm.RunAll(); err != nil {
		return fail("run", "%s machine (evaluation: %v): %v", n.kind, n.eval, err)
	}
	factors := map[int64]terms.Num{}
	get := func(k int64) terms.Num {
		f, ok := factors[k]
		if !ok {
			f, ok = n.left[k]
		}
		if !ok {
			return terms.Num{Skip: true}
		}
		return f
	}
	cmp := func(kind, what string, v G.Value, want []*terms.Term) *drive.Finding {
		got, _, err := sess.Flat(v)
		if err != nil {
			return fail(kind, "%s: %v", what, err)
		}
		if len(got) != len(want) {
			return fail(kind, "%s has %d elements, expected %d", what, len(got), len(want))
		}
		for i, t := range want {
			t.Resolve(get)
			e := t.Eval(n.u)
			if e.Skip {
				res.Skipped++
				continue
			}
			res.Compared++
			if !terms.Close(e, got[i], n.u) {
				return fail(kind, "%s (%s machine): element %d is %v, expected %v (±%.2g) = %s", what, n.kind, i, got[i], e.V, e.E, short(t))
			}
		}
		return nil
	}
	for i := range st.Outs {
		o := &st.Outs[i]
		l := n.st.Layers[i]
		v := n.outV[i]
		if n.st.Grad == "auto" {
			v = n.out[i].Value()
		}
		if o.Drop {
			if f := n.factors(i, l, v, o, factors, get, fail); f != nil {
				return f
			}
			res.Compared += len(o.V)
		}
		for j, t := range o.V {
			t.Resolve(get)
			factors[int64(100000*(i+1)+j+1)] = t.Eval(n.u)
		}
		if n.st.Grad != "auto" && !l.Read {
			continue
		}
		if f := cmp("value", fmt.Sprintf("output of layer %d (%s)", i+1, l.K), v, o.V); f != nil {
			return f
		}
	}
	cost := n.costV
	if n.st.Grad == "auto" {
		cost = n.cost.Value()
	}
	if f := cmp("value", "cost", cost, st.Cost); f != nil && len(st.Cost) > 0 {
		return f
	}
	if n.st.Grad != "none" {
		want := [][]*terms.Term{st.Gx}
		for _, g := range st.Grads {
			want = append(want, g.Scale, g.Bias)
		}
		for i, x := range n.wrt {
			var v G.Value
			if n.st.Grad == "sym" {
				v = n.gradV[i]
			} else {
				var err error
				if v, err = x.Grad(); err != nil {
					return fail("grad", "no gradient of %s: %v", x.Name(), err)
				}
			}
			if f := cmp("grad", "gradient of "+x.Name(), v, want[i]); f != nil {
				return f
			}
			if n.st.Grad == "auto" {
				v.(*tensor.Dense).Zero()
			}
		}
	}
	for _, s := range st.Stats {
		m, v := n.ops[s.L-1].Stats()
		if f := cmp("stats", fmt.Sprintf("running mean of layer %d", s.L), m, s.Mean); f != nil {
			return f
		}
		if f := cmp("stats", fmt.Sprintf("running variance of layer %d", s.L), v, s.Var); f != nil {
			return f
		}
	}
	next := map[int64]terms.Num{}
	for _, s := range st.Stats {
		for c := range s.Mean {
			next[int64(500000+100*s.L+c+1)] = s.Mean[c].Eval(n.u)
			next[int64(600000+100*s.L+c+1)] = s.Var[c].Eval(n.u)
		}
	}
	n.left = next
	for x, want := range n.own {
		got, _, err := sess.Flat(x.Value())
		if err != nil {
			return fail("input", "%s: %v", x.Name(), err)
		}
		for i := range want {
			res.Compared++
			if got[i] != want[i] {
				return fail("input", "element %d of the input %s has become %v, was %v", i, x.Name(), got[i], want[i])
			}
		}
	}
	n.vm.Reset()
	return nil
}

// factors finds what a dropout layer has drawn
func (n *net) factors(i int, l layer, v G.Value, o *out, factors map[int64]terms.Num, get func(int64) terms.Num, fail func(kind, f string, a ...interface{}) *drive.Finding) *drive.Finding {
	got, _, err := sess.Flat(v)
	if err != nil {
		return fail("value", "output of dropout: %v", err)
	}
	keep := 1 - l.P[0]/l.P[1]
	zeros := 0
	for j, t := range o.In {
		t.Resolve(get)
		e := t.Eval(n.u)
		if got[j] == 0 {
			zeros++
		}
		if e.Skip || math.Abs(e.V) <= 4*e.E {
			continue // cannot tell
		}
		f := terms.Num{V: 1 / keep, E: n.u / keep}
		if got[j] == 0 {
			f = terms.Num{}
		}
		factors[int64(1000*(i+1)+j+1)] = f
	}
	// as good as impossible otherwise
	if len(got) >= 64 && (keep == 0.5 || keep == 0.75 || keep == 0.25) {
		if zeros == len(got) {
			return fail("value", "dropout with probability %v dropped all of %d elements", 1-keep, len(got))
		}
		if nz := nonzero(o.In, n.u); zeros == len(got)-nz && nz >= 50 {
			return fail("value", "dropout with probability %v dropped none of %d elements", 1-keep, nz)
		}
	}
	return nil
}

func nonzero(q []*terms.Term, u float64) (k int) {
	for _, t := range q {
		if e := t.Eval(u); !e.Skip && e.V != 0 {
			k++
		}
	}
	return
}

func short(t *terms.Term) string {
	s := t.String()
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func main() { drive.Main(replay) }
