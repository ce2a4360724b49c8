package sess

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

// several machines on a graph, several graphs
func (s *Session) multi(w *world, st *Step) *Finding {
	switch st.A {
	case "mvm":
		roots := w.nodes(st.Ids)
		g := w.g
		var extra []G.VMOpt
		switch st.How {
		case "full":
		case "exact":
			g = w.g.ExactSubgraphRoots(roots...)
		case "roots":
			g = w.g.SubgraphRoots(roots...)
		case "one":
			g = w.g.Subgraph(roots...)
		case "fn":
			prog, locs, err := G.CompileFunction(w.g, w.nodes(st.Args), roots)
			if err != nil {
				return s.fail("build", "CompileFunction: unexpected error: %v", err)
			}
			extra = append(extra, G.WithPrecompiled(prog, locs))
		default:
			drive.Fail("unknown machine %q", st.How)
		}
		if s.vms == nil {
			s.vms = map[int]G.VM{}
			s.has = map[int]map[*G.Node]bool{}
		}
		s.has[st.N] = map[*G.Node]bool{}
		if st.How == "fn" {
			g = w.g.ExactSubgraphRoots(roots...)
		}
		for _, n := range g.AllNodes() {
			s.has[st.N][n] = true
		}
		for _, n := range roots {
			s.has[st.N][n] = true
		}
		if st.How == "fn" {
			g = w.g
		}
		s.vms[st.N] = machine(g, st.Kind, st.Opts, extra)
	case "mrun":
		vm := s.vms[st.N]
		if st.Flag {
			vm.Reset()
		}
		if st.How == "auto" {
			// gradients add up over runs until they are zeroed, as a solver does
			for _, e := range st.Grads {
				if g, err := w.n[e.ID].Grad(); err == nil && g != nil {
					G.ZeroValue(g)
				}
			}
		}
		if err := vm.RunAll(); err != nil {
			return s.fail("run", "RunAll: unexpected error: %v", err)
		}
		// an expression may have been rewritten to one that does not use its operand,
		// and what expressions are made of may be another expression of the program
		for id, n := range w.n {
			if s.has[st.N][n] {
				w.odd[id] = true
			}
		}
		var vals []Expected
		for _, e := range st.Vals {
			if w.odd[e.ID] = !s.has[st.N][w.n[e.ID]]; !w.odd[e.ID] {
				vals = append(vals, e)
			}
		}
		st.Vals = vals
		if f := s.observe(w, st); f != nil {
			return f
		}
		return s.look(st)
	case "poke":
		for _, l := range st.Lets {
			v := w.n[l.ID].Value()
			if t, ok := v.(*tensor.Dense); ok && len(l.Sh) > 0 {
				switch d := t.Data().(type) {
				case []float64:
					copy(d, l.In)
				case []float32:
					for i := range d {
						d[i] = float32(l.In[i])
					}
				}
				w.own[l.ID] = owned{v, l.In}
				continue
			}
			nv := MakeValue(l.Dt, l.Sh, l.In)
			if err := G.Let(w.n[l.ID], nv); err != nil {
				return s.fail("let", "Let(%d): %v", l.ID, err)
			}
			w.own[l.ID] = owned{nv, l.In}
		}
	case "cloneg":
		g2 := w.g.Clone().(*G.ExprGraph)
		w2 := newWorld()
		w2.g = g2
		w2.rewritten = w.rewritten
		byID := map[int64]*G.Node{}
		for _, n := range g2.AllNodes() {
			byID[n.ID()] = n
		}
		for id, n := range w.n {
			m := byID[n.ID()]
			if m == nil || m == n {
				return s.fail("clone", "the clone has no node of its own for %v", n)
			}
			w2.n[id] = m
			w2.sh[id] = w.sh[id]
			w2.odd[id] = w.odd[id]
		}
		for id, n := range w.grad {
			w2.grad[id] = byID[n.ID()]
		}
		s.ws = append(s.ws, w2)
		return s.look(st)
	}
	return nil
}

// uses says whether n is built from m
func uses(g *G.ExprGraph, n, m *G.Node) bool {
	if n == m {
		return true
	}
	it := g.From(n.ID())
	for it.Next() {
		if uses(g, it.Node().(*G.Node), m) {
			return true
		}
	}
	return false
}

// look compares everything that is to be seen in all graphs
func (s *Session) look(st *Step) *Finding {
	for _, o := range st.Obs {
		w := s.ws[o.G]
		shared := map[*G.Node]int{}
		for _, n := range w.n {
			shared[n]++
		}
		for _, e := range o.Vals {
			// several expressions in one node: which of them was executed last is not known here
			if _, in := w.own[e.ID]; w.odd[e.ID] || !in && shared[w.n[e.ID]] > 1 {
				continue
			}
			if f := s.compare("other", fmt.Sprintf("value of node %d (%v) in graph %d", e.ID, w.n[e.ID], o.G), w.n[e.ID].Value(), e); f != nil {
				return f
			}
		}
		for _, e := range o.Grads {
			gv, err := w.n[e.ID].Grad()
			if err != nil {
				return s.fail("other", "no gradient on node %d in graph %d: %v", e.ID, o.G, err)
			}
			if f := s.compare("other", fmt.Sprintf("gradient of node %d in graph %d", e.ID, o.G), gv, e); f != nil {
				return f
			}
		}
		for _, e := range o.Reads {
			if w.rewritten || shared[w.n[e.ID]] > 1 {
				continue
			}
			if f := s.compare("other", fmt.Sprintf("what was read of node %d (%v) in graph %d", e.ID, w.n[e.ID], o.G), *w.reads[e.ID], e); f != nil {
				return f
			}
		}
	}
	return nil
}
