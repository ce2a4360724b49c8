package sess

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
	"verif/terms"
)

// SolverOpt is an option of a solver
type SolverOpt struct {
	O string    `json:"o"`
	Q []float64 `json:"q"`
}

// SolverOptions translates options
func SolverOptions(os []SolverOpt) (retVal []G.SolverOpt) {
	for _, o := range os {
		q := o.Q[0] / o.Q[1]
		switch o.O {
		case "eta":
			retVal = append(retVal, G.WithLearnRate(q))
		case "eps":
			retVal = append(retVal, G.WithEps(q))
		case "rho":
			retVal = append(retVal, G.WithRho(q))
		case "b1":
			retVal = append(retVal, G.WithBeta1(q))
		case "b2":
			retVal = append(retVal, G.WithBeta2(q))
		case "mom":
			retVal = append(retVal, G.WithMomentum(q))
		case "l1":
			retVal = append(retVal, G.WithL1Reg(q))
		case "l2":
			retVal = append(retVal, G.WithL2Reg(q))
		case "batch":
			retVal = append(retVal, G.WithBatchSize(q))
		case "clip":
			retVal = append(retVal, G.WithClip(q))
		default:
			drive.Fail("unknown option %q", o.O)
		}
	}
	return
}

// NewSolver makes a solver
func NewSolver(kind string, opts []G.SolverOpt) G.Solver {
	switch kind {
	case "vanilla":
		return G.NewVanillaSolver(opts...)
	case "momentum":
		return G.NewMomentum(opts...)
	case "rmsprop":
		return G.NewRMSPropSolver(opts...)
	case "adagrad":
		return G.NewAdaGradSolver(opts...)
	case "adam":
		return G.NewAdamSolver(opts...)
	case "adamw":
		return G.NewAdamW(opts...)
	case "bb":
		return G.NewBarzilaiBorweinSolver(opts...)
	}
	drive.Fail("unknown solver %q", kind)
	return nil
}

// SetValue overwrites the elements of v
func SetValue(v G.Value, xs []float64) {
	switch x := v.(type) {
	case *G.F64:
		*x = G.F64(xs[0])
	case *G.F32:
		*x = G.F32(xs[0])
	case *tensor.Dense:
		switch d := x.Data().(type) {
		case []float64:
			copy(d, xs)
		case []float32:
			for i := range d {
				d[i] = float32(xs[i])
			}
		default:
			drive.Fail("cannot write %T", d)
		}
	default:
		drive.Fail("cannot write %T", v)
	}
}

// training is the state of a training loop
type training struct {
	st   *Step
	w    *world
	sol  G.Solver
	mod  []G.ValueGrad
	cost *G.Value
	reg  map[int64]terms.Num
	base map[int]int
	u    float64
	lost bool // a parameter is not known any more
}

func (t *training) get(i int64) terms.Num { return t.reg[i] }

func (s *Session) train(w *world, st *Step) *Finding {
	t := &training{st: st, w: w, reg: map[int64]terms.Num{}, base: map[int]int{}, u: unit(st.Dt)}
	s.tr = t
	t.sol = NewSolver(st.Solver, SolverOptions(st.SOpts))
	for id, b := range w.base {
		t.base[id] = b
		for k, x := range w.own[id].want {
			t.reg[int64(b+k+1)] = terms.Num{V: x}
		}
	}
	pars := w.nodes(st.Wrt)
	t.mod = G.NodesToValueGrads(pars)
	var extra []G.VMOpt
	if st.Kind != "lisp" {
		t.cost = new(G.Value)
		G.Read(w.n[st.Cost], t.cost)
		extra = append(extra, G.BindDualValues(pars...))
	}
	for _, p := range st.Wrt {
		delete(w.own, p)
	}
	w.kind = st.Kind
	w.vm = machine(w.g, st.Kind, st.Opts, extra)
	return nil
}

func (s *Session) iter(w *world, st *Step) *Finding {
	t := s.tr
	if t.lost {
		return nil
	}
	for _, l := range st.Lets {
		if st.How == "set" {
			SetValue(w.n[l.ID].Value(), l.In)
			w.own[l.ID] = owned{w.own[l.ID].v, l.In}
		} else {
			v := MakeValue(l.Dt, l.Sh, l.In)
			if err := G.Let(w.n[l.ID], v); err != nil {
				return s.fail("let", "Let(%d): %v", l.ID, err)
			}
			w.own[l.ID] = owned{v, l.In}
		}
		for k, x := range l.In {
			t.reg[int64(t.base[l.ID]+k+1)] = terms.Num{V: x}
		}
	}
	if err := w.vm.RunAll(); err != nil {
		return s.fail("run", "RunAll: unexpected error: %v", err)
	}
	cost := w.n[t.st.Cost].Value()
	if t.cost != nil {
		cost = *t.cost
	}
	resolve := func(q []*terms.Term) {
		for _, x := range q {
			x.Resolve(t.get)
		}
	}
	resolve(t.st.V)
	if f := s.compare("value", "cost", cost, Expected{Sh: []int{}, Dt: t.st.Dt, V: t.st.V}); f != nil {
		return f
	}
	if f := s.observe(w, &Step{}); f != nil {
		return f
	}
	// the derivatives
	grads := map[int64]terms.Num{}
	for _, e := range t.st.Vals {
		resolve(e.V)
		g, err := w.n[e.ID].Grad()
		if err != nil {
			return s.soft("grad", "no gradient on parameter %d: %v", e.ID, err)
		}
		if f := s.compare("grad", fmt.Sprintf("gradient of parameter %d", e.ID), g, e); f != nil {
			return f
		}
		for k, x := range e.V {
			grads[int64(t.base[e.ID]+k+1)] = x.Eval(t.u)
		}
	}
	for v, g := range grads {
		t.reg[3000+v] = g
	}
	if st.Str == "reset-step" {
		w.vm.Reset()
	}
	if err := t.sol.Step(t.mod); err != nil {
		return s.fail("run", "step of the solver: unexpected error: %v", err)
	}
	if st.Str != "reset-step" {
		w.vm.Reset()
	}
	st.Eta.Resolve(t.get)
	eta := st.Eta.Eval(t.u)
	next := map[int64]terms.Num{}
	for v, g := range grads {
		get := func(k int64) terms.Num {
			switch k {
			case 0:
				return eta
			case 1:
				return t.reg[v]
			case 2:
				return t.reg[1000+v]
			case 3:
				return t.reg[2000+v]
			case 4:
				return g
			}
			drive.Fail("no register %d", k)
			return terms.Num{}
		}
		for k, x := range st.New {
			x.Resolve(get)
			next[v+int64(k)*1000] = x.Eval(t.u)
		}
		next[4000+v] = t.reg[v]
		next[5000+v] = g
	}
	for v, x := range next {
		t.reg[v] = x
	}
	for _, e := range t.st.Vals {
		got, sh, err := Flat(w.n[e.ID].Value())
		if err != nil {
			return s.fail("other", "parameter %d: %v", e.ID, err)
		}
		if !sameShape(sh, e.Sh) {
			return s.fail("other", "parameter %d has become of shape %v, was %v", e.ID, sh, e.Sh)
		}
		for k := range got {
			x := t.reg[int64(t.base[e.ID]+k+1)]
			if x.Skip {
				s.Skipped++
				t.lost = true
				continue
			}
			s.Compared++
			if !terms.Close(x, got[k], t.u) {
				return s.fail("other", "element %d of parameter %d is %v after the step, expected %v (±%.2g)", k, e.ID, got[k], x.V, x.E)
			}
		}
	}
	return s.observe(w, &Step{})
}
