// Package sess replays one behaviour of the specification into the library
// through its public interface and compares what the library does with what
// the specification says.
package sess

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"verif/drive"
	"verif/terms"
)

// Step is one event of a behaviour
type Step struct {
	A    string          `json:"a"`
	G    int             `json:"g"`
	ID   int             `json:"id"`
	Op   string          `json:"op"`
	P    json.RawMessage `json:"p"`
	Args []int           `json:"args"`
	Dt   string          `json:"dt"`
	Sh   []int           `json:"sh"`
	V    []*terms.Term   `json:"v"`
	Base int             `json:"base"`
	How  string          `json:"how"`

	Cost  int        `json:"cost"`
	Wrt   []int      `json:"wrt"`
	Kind  string     `json:"kind"`
	Opts  []string   `json:"opts"`
	Reads []Expected `json:"reads"`
	Grads []Expected `json:"grads"`
	Asked []Expected `json:"asked"`
	Lets  []Expected `json:"lets"`
	Vals  []Expected `json:"vals"`
	Ids   []int      `json:"ids"`
	Outs  []int      `json:"outs"`
	Str   string     `json:"str"`
	N     int        `json:"n"`
	Of    int        `json:"of"`
	Flag  bool       `json:"flag"`
	Err   bool       `json:"err"`
	Obs   []Obs      `json:"obs"`

	Fails [][2]int `json:"fails"`
	Must  bool     `json:"must"`

	Solver string        `json:"solver"`
	SOpts  []SolverOpt   `json:"sopts"`
	New    []*terms.Term `json:"new"`
	Eta    *terms.Term   `json:"eta"`
}

// Obs is what is to be seen in one of the graphs
type Obs struct {
	G     int        `json:"g"`
	Vals  []Expected `json:"vals"`
	Reads []Expected `json:"reads"`
	Grads []Expected `json:"grads"`
}

// Expected is an expected value
type Expected struct {
	N  int           `json:"n"`
	ID int           `json:"id"`
	Sh []int         `json:"sh"`
	Dt string        `json:"dt"`
	V  []*terms.Term `json:"v"`
	In []float64     `json:"in"`
}

// Trace is a behaviour
type Trace []Step

// Finding is a disagreement between library and specification
type Finding = drive.Finding

// owned is memory of the caller that the library has been given
type owned struct {
	v    G.Value
	want []float64
}

// world is one graph with its machine
type world struct {
	g     *G.ExprGraph
	n     map[int]*G.Node
	sh    map[int][]int
	reads map[int]*G.Value
	grad  map[int]*G.Node
	gread map[int]*G.Value
	own   map[int]owned
	odd   map[int]bool
	base  map[int]int
	// some expression does not use its operands
	rewritten bool
	vm        G.VM
	kind      string
	opts      []string
	kept      []owned
	asked     map[[2]int]*G.Value // gradients by request and input
	answer    map[[2]int]*G.Node
	named     map[string]int      // inputs by type and shape, when names collide
	auto      bool                // gradients are bound by the interpreting machine
	bound     bool                // gradients are bound by the compiled machine
}

func newWorld() *world {
	return &world{
		g: G.NewGraph(), n: map[int]*G.Node{}, sh: map[int][]int{},
		reads: map[int]*G.Value{}, grad: map[int]*G.Node{}, gread: map[int]*G.Value{}, own: map[int]owned{}, odd: map[int]bool{}, base: map[int]int{}, asked: map[[2]int]*G.Value{}, answer: map[[2]int]*G.Node{},
	}
}

// Session is the replay state
type Session struct {
	ws   []*world
	vms  map[int]G.VM
	has  map[int]map[*G.Node]bool
	step int
	tr   *training

	// several machines or graphs
	multiple bool

	Compared, Skipped int
}

// New session
func New() *Session { return &Session{ws: []*world{newWorld()}} }

func (s *Session) fail(kind, f string, a ...interface{}) *Finding {
	return &Finding{Kind: kind, Step: s.step, Detail: fmt.Sprintf(f, a...)}
}

// soft is a finding after which the replay could go on: it is dropped if its kind does not count
func (s *Session) soft(kind, f string, a ...interface{}) *Finding {
	if !drive.Judged(kind) {
		return nil
	}
	return s.fail(kind, f, a...)
}

// Run replays tr.
func (s *Session) Run(tr Trace) *Finding {
	defer s.Close()
	return s.Part(tr, 0, len(tr))
}

// Close the machines
func (s *Session) Close() {
	for _, vm := range s.vms {
		vm.Close()
	}
	for _, w := range s.ws {
		if w.vm != nil {
			w.vm.Close()
		}
	}
}

// Part replays the steps from..to-1 of tr.
func (s *Session) Part(tr Trace, from, to int) *Finding {
	return drive.Guard(&s.step, func() *Finding {
		for i := range tr {
			s.multiple = s.multiple || tr[i].A == "mvm" || tr[i].A == "cloneg"
		}
		for i := from; i < to; i++ {
			s.step = i
			if f := s.do(s.ws[tr[i].G], &tr[i]); f != nil {
				return f
			}
		}
		return nil
	})
}

func floats(v []*terms.Term) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		switch v[i].Op {
		case "nan":
			r[i] = math.NaN()
		case "inf":
			r[i] = math.Inf(1)
		case "-inf":
			r[i] = math.Inf(-1)
		default:
			r[i] = float64(v[i].N)
		}
	}
	return r
}

func (s *Session) do(w *world, st *Step) *Finding {
	switch st.A {
	case "input":
		v := MakeValue(st.Dt, st.Sh, floats(st.V))
		opts := []G.NodeConsOpt{G.WithName(w.inputName(st))}
		if st.How != "let" {
			opts = append(opts, G.WithValue(v))
		}
		n := input(w.g, st.Dt, st.Sh, opts...)
		if st.How == "let" {
			if err := G.Let(n, v); err != nil {
				return s.fail("let", "Let of a fitting value on %v: %v", n, err)
			}
		}
		w.own[st.ID] = owned{v, floats(st.V)}
		w.base[st.ID] = st.Base
		return s.put(w, st, n)
	case "const":
		var n *G.Node
		v := MakeValue(st.Dt, st.Sh, floats(st.V))
		var opts []G.NodeConsOpt
		if st.Str != "" {
			opts = append(opts, G.WithName(st.Str))
		}
		if len(st.Sh) == 0 {
			n = G.NewConstant(v.Data(), opts...)
		} else {
			n = G.NewConstant(v, opts...)
			w.own[st.ID] = owned{v, floats(st.V)}
		}
		return s.put(w, st, w.g.AddNode(n))
	case "op":
		args := w.nodes(st.Args)
		before := len(w.g.AllNodes())
		n, err := Apply(st.Op, st.P, args)
		if st.Err {
			if err == nil {
				return s.fail("accept", "%s%s on %s: accepted, although the operands do not fit (result shape %v)", st.Op, st.P, shapes(args), n.Shape())
			}
			if now := len(w.g.AllNodes()); now != before {
				return s.soft("residue", "%s%s on %s: refused, but the graph went from %d to %d nodes", st.Op, st.P, shapes(args), before, now)
			}
			return nil
		}
		if err != nil {
			return s.fail("build", "%s%s on %s: unexpected error: %v", st.Op, st.P, shapes(args), err)
		}
		if n == nil {
			return s.fail("build", "%s%s on %s: neither a node nor an error", st.Op, st.P, shapes(args))
		}
		if s.multiple {
			for _, a := range args {
				w.rewritten = w.rewritten || !uses(w.g, n, a)
			}
		}
		if !sameShape(n.Shape(), st.Sh) {
			if f := s.soft("shape", "%s%s on %s: static shape %v, expected %v", st.Op, st.P, shapes(args), n.Shape(), st.Sh); f != nil {
				return f
			}
		}
		if n.Dtype() != Dtype(st.Dt) {
			if f := s.soft("dtype", "%s%s on %s: static dtype %v, expected %v", st.Op, st.P, shapes(args), n.Dtype(), st.Dt); f != nil {
				return f
			}
		}
		return s.put(w, st, n)
	case "opaque":
		n, err := opaque(st.Op, ints(st.P), w.nodes(st.Args))
		if err != nil {
			return s.fail("build", "%s%s: unexpected error: %v", st.Op, st.P, err)
		}
		return s.put(w, st, n)
	case "read":
		v := new(G.Value)
		w.reads[st.ID] = v
		G.Read(w.n[st.ID], v)
	case "grad":
		wrt := w.nodes(st.Wrt)
		gs, err := G.Grad(w.n[st.Cost], wrt...)
		if err != nil {
			return s.fail("grad-build", "Grad: unexpected error: %v", err)
		}
		if len(gs) != len(wrt) {
			return s.fail("grad-build", "Grad returned %d nodes for %d inputs", len(gs), len(wrt))
		}
		for i, x := range st.Wrt {
			w.grad[x] = gs[i]
			if !sameShape(gs[i].Shape(), w.sh[x]) {
				if f := s.soft("grad-static", "gradient of node %d has static shape %v, the input has %v", x, gs[i].Shape(), w.sh[x]); f != nil {
					return f
				}
			}
			if st.Flag {
				w.gread[x] = new(G.Value)
				G.Read(gs[i], w.gread[x])
			}
		}
	case "ask":
		wrt := w.nodes(st.Wrt)
		var gs G.Nodes
		var err error
		if st.Of != 0 {
			// of the sum of an earlier answer
			cost := w.answer[[2]int{st.Of, st.ID}]
			if cost, err = G.HadamardProd(cost, w.n[st.Args[0]]); err == nil && !cost.IsScalar() {
				cost, err = G.Sum(cost)
			}
			if err == nil {
				gs, err = G.Grad(cost, wrt...)
			}
		} else if st.Cost != 0 {
			gs, err = G.Grad(w.n[st.Cost], wrt...)
		} else {
			gs, err = G.Backpropagate(w.nodes(st.Ids), w.nodes(st.Args), wrt)
		}
		if st.Err {
			if err == nil {
				return s.fail("grad-build", "request for gradients of node %d with respect to %v: no error", st.Cost, st.Wrt)
			}
			break
		}
		if err != nil {
			return s.fail("grad-build", "request %d for gradients: unexpected error: %v", st.N, err)
		}
		if len(gs) != len(wrt) {
			return s.fail("grad-build", "request %d for gradients: %d nodes for %d inputs", st.N, len(gs), len(wrt))
		}
		for i, x := range st.Wrt {
			v := new(G.Value)
			w.asked[[2]int{st.N, x}] = v
			w.answer[[2]int{st.N, x}] = gs[i]
			G.Read(gs[i], v)
		}
	case "vm":
		w.use(st)
	case "let":
		for _, l := range st.Lets {
			if l.In == nil {
				l.In = floats(l.V)
			}
			v := MakeValue(l.Dt, l.Sh, l.In)
			if err := G.Let(w.n[l.ID], v); err != nil {
				return s.fail("let", "Let(%d): %v", l.ID, err)
			}
			w.own[l.ID] = owned{v, l.In}
		}
	case "reslice":
		if err := G.UnsafeLet(w.n[st.ID], slices(ints2(st.P))[0]); err != nil {
			return s.fail("let", "UnsafeLet(%d) of a slice: %v", st.ID, err)
		}
	case "reset":
		w.vm.Reset()
		if strings.HasPrefix(st.How, "unbind") {
			w.g.UnbindAllNonInputs()
		}
		if strings.HasSuffix(st.How, "new") {
			w.vm.Close()
			w.vm = machine(w.g, w.kind, w.opts, nil)
		}
		switch st.How {
		case "tape", "bind", "trace", "fwd", "lisp":
			w.use(st)
		}
		if (w.auto || w.bound) && len(w.asked) == 0 {
			// gradients add up over runs until they are zeroed, as a solver does
			for id := range w.own {
				if g, err := w.n[id].Grad(); err == nil && g != nil {
					G.ZeroValue(g)
				}
			}
		}
	case "run":
		if st.Fails != nil {
			return s.failing(w, st)
		}
		if err := w.vm.RunAll(); err != nil {
			return s.fail("run", "RunAll: unexpected error: %v", err)
		}
		return s.observe(w, st)
	case "mvm", "mrun", "cloneg", "poke":
		return s.multi(w, st)
	case "watch":
		err := w.vm.RunAll()
		s.Compared++
		if err == nil && st.Err {
			return s.fail("watch", "%s machine with %v: RunAll succeeded although an operator produced a value that is watched for", w.kind, w.opts)
		}
		if err != nil && !st.Err && !st.Flag {
			return s.fail("watch", "%s machine with %v: RunAll failed although no operator produced a value that is watched for: %v", w.kind, w.opts, err)
		}
	case "train":
		return s.train(w, st)
	case "iter":
		return s.iter(w, st)
	default:
		return s.fail("harness", "unknown step %q", st.A)
	}
	return nil
}

func machine(g *G.ExprGraph, kind string, names []string, extra []G.VMOpt) G.VM {
	opts := append([]G.VMOpt{}, extra...)
	for _, o := range names {
		switch o {
		case "trace":
			opts = append(opts, G.TraceExec())
		case "bind":
			opts = append(opts, G.BindDualValues())
		case "fwd":
			opts = append(opts, G.ExecuteFwdOnly())
		case "nan":
			opts = append(opts, G.WithNaNWatch())
		case "inf":
			opts = append(opts, G.WithInfWatch())
		case "eval":
			opts = append(opts, G.EvalMode())
		default:
			drive.Fail("unknown machine option %q", o)
		}
	}
	switch kind {
	case "lisp":
		return G.NewLispMachine(g, opts...)
	case "xvm":
		return &conc{g: g}
	}
	return G.NewTapeMachine(g, opts...)
}

// use replaces the machine
func (w *world) use(st *Step) {
	if w.vm != nil {
		w.vm.Close()
	}
	w.kind, w.opts = st.Kind, st.Opts
	w.vm = machine(w.g, st.Kind, st.Opts, nil)
	w.auto = w.auto || st.Kind == "lisp"
	w.bound = w.bound || strings.Contains(strings.Join(st.Opts, " "), "bind")
}

// observe compares everything the step lists
func (s *Session) observe(w *world, st *Step) *Finding {
	for _, o := range w.kept {
		got, _, err := Flat(o.v)
		if err != nil {
			return s.fail("harness", "clone: %v", err)
		}
		for i := range got {
			if got[i] != o.want[i] && !(got[i] != got[i] && o.want[i] != o.want[i]) {
				if f := s.soft("input", "the clone of a value read after an earlier run was changed by a run: element %d is %v, was %v", i, got[i], o.want[i]); f != nil {
					return f
				}
			}
		}
	}
	defer w.keep(st)
	for id, o := range w.own {
		got, _, err := Flat(o.v)
		if err != nil {
			return s.fail("harness", "own memory: %v", err)
		}
		for i := range got {
			if got[i] != o.want[i] && !(got[i] != got[i] && o.want[i] != o.want[i]) {
				if f := s.soft("input", "the caller's value of node %d was changed by the run: element %d is %v, was %v", id, i, got[i], o.want[i]); f != nil {
					return f
				}
			}
		}
	}
	for _, e := range st.Reads {
		if w.kind == "xvm" { // does not execute statements
			break
		}
		if f := s.compare("value", fmt.Sprintf("read of node %d (%v)", e.ID, w.n[e.ID]), *w.reads[e.ID], e); f != nil {
			return f
		}
	}
	for _, e := range st.Vals {
		kind := "value"
		if _, ok := w.own[e.ID]; ok {
			kind = "input"
		}
		if f := s.compare(kind, fmt.Sprintf("value of node %d (%v)", e.ID, w.n[e.ID]), w.value(w.n[e.ID]), e); f != nil {
			return f
		}
	}
	for _, e := range st.Asked {
		if f := s.compare("grad", fmt.Sprintf("gradient of node %d asked for by request %d", e.ID, e.N), *w.asked[[2]int{e.N, e.ID}], e); f != nil {
			return f
		}
	}
	for _, e := range st.Grads {
		// once an input has a gradient bound to it, that is the one it reports,
		// and only machines that bind gradients renew it
		stale := w.auto || w.bound && !strings.Contains(strings.Join(w.opts, " "), "bind")
		if w.kind == "xvm" || stale && w.grad[e.ID] != nil {
			if f := s.compare("grad", fmt.Sprintf("gradient of node %d", e.ID), w.value(w.grad[e.ID]), e); f != nil {
				return f
			}
			continue
		}
		if v, ok := w.gread[e.ID]; ok {
			if f := s.compare("grad", fmt.Sprintf("read of the gradient of node %d", e.ID), *v, e); f != nil {
				return f
			}
		}
		gv, err := w.n[e.ID].Grad()
		if err != nil {
			return s.soft("grad", "no gradient on node %d: %v", e.ID, err)
		}
		if f := s.compare("grad", fmt.Sprintf("gradient of node %d", e.ID), gv, e); f != nil {
			return f
		}
	}
	return nil
}

// keep clones what can be read now, later runs must not change it
func (w *world) keep(st *Step) {
	if w.kind == "xvm" {
		return
	}
	for _, e := range st.Reads {
		if v := *w.reads[e.ID]; v != nil {
			if c, err := G.CloneValue(v); err == nil {
				if x, _, err := Flat(c); err == nil {
					w.kept = append(w.kept, owned{c, append([]float64(nil), x...)})
				}
			}
		}
	}
}

func (w *world) nodes(ids []int) G.Nodes {
	r := make(G.Nodes, len(ids))
	for i, a := range ids {
		if r[i] = w.n[a]; r[i] == nil {
			drive.Fail("no node %d", a)
		}
	}
	return r
}

// put records the node made by the step. A node the specification says exists
// already must be that very node, a new one must be none of the others.
func (s *Session) put(w *world, st *Step, n *G.Node) *Finding {
	if old, ok := w.n[st.ID]; ok {
		if old != n {
			return s.soft("ident", "%s%s%v built twice gives two nodes", st.Op, st.P, st.Args)
		}
		return nil
	}
	for id, m := range w.n {
		// (applications may be rewritten to one another if they mean the same: their values tell)
		if m == n && st.A != "op" {
			if f := s.soft("ident", "%s %s%s%v%v gives the node %d (%v), which is something else", st.A, st.Op, st.P, st.Args, floats(st.V), id, m); f != nil {
				return f
			}
		}
	}
	w.n[st.ID] = n
	w.sh[st.ID] = st.Sh
	return nil
}

func shapes(a []*G.Node) string {
	var r []string
	for _, n := range a {
		r = append(r, fmt.Sprint(n.Shape()))
	}
	return strings.Join(r, "x")
}

func (s *Session) compare(kind, what string, v G.Value, e Expected) *Finding {
	got, sh, err := Flat(v)
	if err != nil {
		return s.soft(kind, "%s: %v", what, err)
	}
	if !sameShape(sh, e.Sh) {
		if f := s.soft(kind+"-shape", "%s: runtime shape %v, expected %v", what, sh, e.Sh); f != nil {
			return f
		}
	}
	if e.Dt != "" && v.Dtype() != Dtype(e.Dt) {
		if f := s.soft(kind+"-dtype", "%s: runtime dtype %v, expected %v", what, v.Dtype(), e.Dt); f != nil {
			return f
		}
	}
	if len(got) != len(e.V) {
		return s.soft(kind, "%s: %d elements, expected %d", what, len(got), len(e.V))
	}
	u := unit(e.Dt)
	for i := range got {
		x := e.V[i].Eval(u)
		if x.Skip {
			s.Skipped++
			continue
		}
		s.Compared++
		if !terms.Close(x, got[i], u) {
			return s.soft(kind, "%s: element %d is %v, expected %v (±%.2g) = %s", what, i, got[i], x.V, x.E, short(e.V[i].String()))
		}
	}
	return nil
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}
