// weights replays the making of initial values and runs of graphs with random nodes.
package main

import (
	"encoding/json"
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"verif/drive"
	"verif/sess"
	"verif/vals"
)

type initialiser struct {
	Fn string `json:"fn"`
	Dt string `json:"dt"`
	A  int    `json:"a"`
	B  int    `json:"b"`
}

type dist struct {
	Sup  string     `json:"sup"`
	Mean [2]float64 `json:"mean"`
	Var  [2]float64 `json:"var"`
}

type step struct {
	A     string      `json:"a"`
	I     initialiser `json:"i"`
	Sh    []int       `json:"sh"`
	X     []int       `json:"x"`
	D     *dist       `json:"d"`
	ID    int         `json:"id"`
	Dt    string      `json:"dt"`
	Op    string      `json:"op"`
	Args  []int       `json:"args"`
	M     string      `json:"m"`
	Times int         `json:"times"`
}

func (i initialiser) fn() G.InitWFn {
	a, b := float64(i.A), float64(i.B)
	switch i.Fn {
	case "zeroes":
		return G.Zeroes()
	case "ones":
		return G.Ones()
	case "from":
		return G.RangedFrom(i.A)
	case "step":
		return G.RangedFromWithStep(vals.Conv(i.Dt, i.A), vals.Conv(i.Dt, i.B))
	case "of":
		return G.ValuesOf(vals.Conv(i.Dt, i.A))
	case "uniform":
		return G.Uniform(a, b)
	case "gaussian":
		return G.Gaussian(a, b)
	case "glorotn":
		return G.GlorotN(a)
	case "glorotu":
		return G.GlorotU(a)
	case "hen":
		return G.HeN(a)
	case "heu":
		return G.HeU(a)
	}
	drive.Fail("no initialiser %s", i.Fn)
	return nil
}

// possible tells what is impossible (or next to it) about these draws
func (d *dist) possible(i initialiser, x []float64) string {
	mean, v := d.Mean[0]/d.Mean[1], d.Var[0]/d.Var[1]
	sd := math.Sqrt(v)
	eps := 1e-6 * (math.Abs(mean) + sd)
	reach := sd * math.Sqrt(3)
	if d.Sup == "normal" {
		reach = 9 * sd
	}
	var s, s2 float64
	same := true
	for k, e := range x {
		if d.Sup == "count" {
			if e != math.Trunc(e) || e < 0 || e > float64(i.A) {
				return fmt.Sprintf("element %d is %v, not the number of successes in %d trials", k, e, i.A)
			}
		} else if !(math.Abs(e-mean) <= reach+eps) {
			return fmt.Sprintf("element %d is %v, outside of %v ± %v", k, e, mean, reach)
		}
		same = same && e == x[0]
		s += e
		s2 += (e - mean) * (e - mean)
	}
	n := float64(len(x))
	if n >= 4 && same && v > 0 && d.Sup != "count" {
		return fmt.Sprintf("all %d elements are %v", len(x), x[0])
	}
	if n >= 800 {
		if math.Abs(s/n-mean) > 7*sd/math.Sqrt(n)+eps {
			return fmt.Sprintf("the mean of %d draws is %v, of the distribution %v", len(x), s/n, mean)
		}
		if math.Abs(s2/n-v) > 7*math.Sqrt(3/n)*v+eps*sd {
			return fmt.Sprintf("the variance of %d draws is %v, of the distribution %v", len(x), s2/n, v)
		}
	}
	return ""
}

// spread tells whether the draws of many runs are spread quite differently
func (d *dist) spread(x []float64) string {
	n := float64(len(x))
	if n < 200 {
		return ""
	}
	mean, v := d.Mean[0]/d.Mean[1], d.Var[0]/d.Var[1]
	var s, s2 float64
	for _, e := range x {
		s += e
		s2 += (e - mean) * (e - mean)
	}
	if math.Abs(s/n-mean) > math.Sqrt(v)/2+1e-6*(1+math.Abs(mean)) {
		return fmt.Sprintf("the mean of %d draws in several runs is %v, of the distribution %v", len(x), s/n, mean)
	}
	if s2/n > 2.5*v+1e-6 || s2/n < 0.4*v-1e-6 {
		return fmt.Sprintf("the variance of %d draws in several runs is %v, of the distribution %v", len(x), s2/n, v)
	}
	return ""
}

func node(g *G.ExprGraph, dt string, sh []int, opts ...G.NodeConsOpt) *G.Node {
	switch len(sh) {
	case 0:
		return G.NewScalar(g, vals.Dtypes[dt], opts...)
	case 1:
		return G.NewVector(g, vals.Dtypes[dt], append([]G.NodeConsOpt{G.WithShape(sh...)}, opts...)...)
	case 2:
		return G.NewMatrix(g, vals.Dtypes[dt], append([]G.NodeConsOpt{G.WithShape(sh...)}, opts...)...)
	}
	return G.NewTensor(g, vals.Dtypes[dt], len(sh), append([]G.NodeConsOpt{G.WithShape(sh...)}, opts...)...)
}

func size(sh []int) int {
	r := 1
	for _, s := range sh {
		r *= s
	}
	return r
}

// content checks type and shape and gives the elements
func content(v G.Value, dt string, sh []int) ([]float64, string) {
	if v == nil {
		return nil, "there is no value"
	}
	if v.Dtype() != vals.Dtypes[dt] {
		return nil, fmt.Sprintf("the value is of %v, the node of %v", v.Dtype(), vals.Dtypes[dt])
	}
	x, got, err := sess.Flat(v)
	if err != nil {
		return nil, err.Error()
	}
	if len(x) != size(sh) || len(sh) > 0 && fmt.Sprint(got) != fmt.Sprint(sh) {
		return nil, fmt.Sprintf("the value has shape %v, the node %v", got, sh)
	}
	return x, ""
}

type world struct {
	g      *G.ExprGraph
	n      map[int]*G.Node
	st     map[int]step
	out    map[int]*G.Value
	before map[int][]float64
	drawn  map[int][]float64 // by all runs so far
	vm     G.VM
	ran    bool
}

func (w *world) do(k int, st step, res *drive.Result) *drive.Finding {
	bad := func(f string, a ...interface{}) *drive.Finding {
		return &drive.Finding{Kind: "weights", Step: k, Detail: fmt.Sprintf(f, a...)}
	}
	switch st.A {
	case "init":
		n := node(w.g, st.I.Dt, st.Sh, G.WithName(fmt.Sprintf("w%d", k)), G.WithInit(st.I.fn()))
		x, msg := content(n.Value(), st.I.Dt, st.Sh)
		if msg != "" {
			return bad("%+v on shape %v: %s", st.I, st.Sh, msg)
		}
		res.Compared += len(x)
		if st.D != nil {
			if msg := st.D.possible(st.I, x); msg != "" {
				return bad("%+v on shape %v: %s", st.I, st.Sh, msg)
			}
			return nil
		}
		for i := range x {
			if x[i] != float64(st.X[i]) {
				return bad("%+v on shape %v: element %d is %v, expected %d", st.I, st.Sh, i, x[i], st.X[i])
			}
		}
		return nil
	case "rand":
		a, b := float64(st.I.A), float64(st.I.B)
		dt := vals.Dtypes[st.I.Dt]
		switch st.I.Fn {
		case "uniform":
			w.n[st.ID] = G.UniformRandomNode(w.g, dt, a, b, st.Sh...)
		case "gaussian":
			w.n[st.ID] = G.GaussianRandomNode(w.g, dt, a, b, st.Sh...)
		case "binomial":
			w.n[st.ID] = G.BinomialRandomNode(w.g, dt, a, b/10, st.Sh...)
		}
		st.Dt = st.I.Dt
	case "in":
		x := make([]float64, len(st.X))
		for i := range x {
			x[i] = float64(st.X[i])
		}
		w.n[st.ID] = node(w.g, st.Dt, st.Sh, G.WithName(fmt.Sprintf("x%d", st.ID)), G.WithValue(sess.MakeValue(st.Dt, st.Sh, x)))
	case "op":
		var n *G.Node
		var err error
		p := w.n[st.Args[0]]
		q := w.n[st.Args[len(st.Args)-1]]
		switch st.Op {
		case "Add":
			n, err = G.Add(p, q)
		case "Sub":
			n, err = G.Sub(p, q)
		case "HadamardProd":
			n, err = G.HadamardProd(p, q)
		case "Neg":
			n, err = G.Neg(p)
		case "Square":
			n, err = G.Square(p)
		}
		if err != nil {
			return bad("%s: %v", st.Op, err)
		}
		w.n[st.ID] = n
	case "vm":
		for id, n := range w.n {
			w.out[id] = new(G.Value)
			G.Read(n, w.out[id])
		}
		switch st.M {
		case "tape":
			w.vm = G.NewTapeMachine(w.g)
		case "trace":
			w.vm = G.NewTapeMachine(w.g, G.TraceExec())
		case "lisp":
			w.vm = G.NewLispMachine(w.g, G.ExecuteFwdOnly())
		}
		return nil
	case "run":
		for i := 0; i < st.Times; i++ {
			if f := w.run(k, bad, res); f != nil {
				return f
			}
		}
		for id, x := range w.drawn {
			st := w.st[id]
			if msg := st.D.spread(x); msg != "" {
				return bad("random node %d %+v of shape %v: %s", id, st.I, st.Sh, msg)
			}
		}
		return nil
	}
	for id, m := range w.n {
		// (applications may be simplified to other nodes)
		if st.A != "op" && id != st.ID && m == w.n[st.ID] {
			return bad("%v is the node %d, which is something else", st, id)
		}
	}
	w.st[st.ID] = st
	return nil
}

func (w *world) run(k int, bad func(string, ...interface{}) *drive.Finding, res *drive.Result) *drive.Finding {
	if w.ran {
		w.vm.Reset()
	}
	w.ran = true
	if err := w.vm.RunAll(); err != nil {
		return bad("RunAll: %v", err)
	}
	got := map[int][]float64{}
	for id := 1; id <= len(w.st); id++ {
		st := w.st[id]
		x, msg := content(*w.out[id], st.Dt, st.Sh)
		if msg != "" {
			return bad("node %d (%v): %s", id, w.n[id], msg)
		}
		x = append([]float64(nil), x...)
		got[id] = x
		res.Compared += len(x)
		switch st.A {
		case "rand":
			if msg := st.D.possible(st.I, x); msg != "" {
				return bad("random node %d %+v of shape %v: %s", id, st.I, st.Sh, msg)
			}
			if st.I.Fn != "binomial" && len(x) >= 4 && fmt.Sprint(w.before[id]) == fmt.Sprint(x) {
				return bad("random node %d %+v of shape %v: a second run gives the same draws %v", id, st.I, st.Sh, x)
			}
			w.before[id] = x
			w.drawn[id] = append(w.drawn[id], x...)
		case "in":
			for i := range x {
				if x[i] != float64(st.X[i]) {
					return bad("input %d: element %d is %v, was %v", id, i, x[i], st.X[i])
				}
			}
		case "op":
			p, q := got[st.Args[0]], got[st.Args[len(st.Args)-1]]
			for i := range x {
				var want float64
				switch st.Op {
				case "Add":
					want = p[i] + q[i]
				case "Sub":
					want = p[i] - q[i]
				case "HadamardProd":
					want = p[i] * q[i]
				case "Neg":
					want = -p[i]
				case "Square":
					want = p[i] * p[i]
				}
				if math.Abs(x[i]-want) > 1e-5*(math.Abs(want)+math.Abs(p[i])+math.Abs(q[i])) {
					return bad("%s%v: element %d is %v, %v with what was drawn in this run", st.Op, st.Args, i, x[i], want)
				}
			}
		}
	}
	return nil
}

func main() {
	drive.Main(func(raw []byte) (res drive.Result) {
		var tr []step
		if err := json.Unmarshal(raw, &tr); err != nil {
			return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
		}
		res.Steps = len(tr)
		k := 0
		res.Finding = drive.Guard(&k, func() *drive.Finding {
			w := &world{g: G.NewGraph(), n: map[int]*G.Node{}, st: map[int]step{}, out: map[int]*G.Value{}, before: map[int][]float64{}, drawn: map[int][]float64{}}
			for k = range tr {
				if f := w.do(k, tr[k], &res); f != nil {
					return f
				}
			}
			if w.vm != nil {
				w.vm.Close()
			}
			return nil
		})
		return
	})
}
