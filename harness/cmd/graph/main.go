// graph replays histories of building, removing, cloning and sub-setting
// expression graphs, and compares what the queries answer with the
// specification.
package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"sort"
	"sync"

	"gonum.org/v1/gonum/graph"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

type snap struct {
	Nodes []int    `json:"nodes"`
	Edges [][2]int `json:"edges"`
	Roots []int    `json:"roots"`
	Ins   []int    `json:"ins"`
	Dead  []int    `json:"dead"`
	Names []string `json:"names"`
}
type step struct {
	A     string `json:"a"`
	G     int    `json:"g"`
	ID    int    `json:"id"`
	O     int    `json:"o"`
	Nm    string `json:"nm"`
	Op    string `json:"op"`
	V     string `json:"v"`
	How   string `json:"how"`
	Ch    []int  `json:"ch"`
	Nodes []int  `json:"nodes"`
	Q     []snap `json:"q"`
}
type world struct {
	g *G.ExprGraph
	n map[int]*G.Node
}

var names = []string{"a", "b", "c1", "c2", "d", "e"}
var collide struct {
	sync.Once
	a, b string
}

// realName maps c1 and c2 to two names whose nodes have the same hash
func realName(nm string) string {
	if nm != "c1" && nm != "c2" {
		return nm
	}
	collide.Do(func() {
		hash := func(s string) uint32 { return G.NewScalar(G.NewGraph(), tensor.Float64, G.WithName(s)).Hashcode() }
		// known to collide with the present hash; otherwise two are looked for
		collide.a, collide.b = "432cde1f", "b70115d0"
		if hash(collide.a) == hash(collide.b) {
			return
		}
		seen := make(map[uint32]string)
		for i := 0; i < 400000; i++ {
			s := fmt.Sprintf("%x", sha1.Sum([]byte(fmt.Sprint(i))))[:10]
			h := hash(s)
			if t, ok := seen[h]; ok {
				collide.a, collide.b = t, s
				return
			}
			seen[h] = s
		}
	})
	if nm == "c1" {
		return collide.a
	}
	return collide.b
}

func main() {
	drive.Main(func(raw []byte) drive.Result {
		var tr []step
		if err := json.Unmarshal(raw, &tr); err != nil {
			drive.Fail("%v", err)
		}
		r := &run{ws: []*world{{G.NewGraph(), map[int]*G.Node{}}}}
		var i int
		f := drive.Guard(&i, func() *drive.Finding {
			for i = range tr {
				if f := r.do(&tr[i]); f != nil {
					f.Step = i
					return f
				}
			}
			return nil
		})
		return drive.Result{Finding: f, Steps: len(tr), Compared: r.cmp}
	})
}

type run struct {
	ws  []*world
	cmp int
	out []*G.Value
}

func bad(kind, f string, a ...interface{}) *drive.Finding {
	return &drive.Finding{Kind: kind, Detail: fmt.Sprintf(f, a...)}
}

func (r *run) do(st *step) *drive.Finding {
	w := r.ws[st.G-1]
	var n *G.Node
	var err error
	switch st.A {
	case "in":
		n = G.NewScalar(w.g, tensor.Float64, G.WithName(realName(st.Nm)))
	case "const":
		v := 1.0
		if st.V == "v2" {
			v = 2
		}
		n = w.g.AddNode(G.NewConstant(v))
	case "op":
		var a []*G.Node
		for _, c := range st.Ch {
			a = append(a, w.n[c])
		}
		switch st.Op {
		case "Square":
			n, err = G.Square(a[0])
		case "Cube":
			n, err = G.Cube(a[0])
		case "Tanh":
			n, err = G.Tanh(a[0])
		case "Add":
			n, err = G.Add(a[0], a[1])
		case "Mul":
			n, err = G.Mul(a[0], a[1])
		case "Pow":
			n, err = G.Pow(a[0], a[1])
		default:
			drive.Fail("no operator %s", st.Op)
		}
		if err != nil {
			return bad("build", "%s: %v", st.Op, err)
		}
	case "read":
		v := new(G.Value)
		r.out = append(r.out, v)
		n = G.Read(w.n[st.Ch[0]], v)
	case "rm", "rmgone":
		w.g.RemoveNode(w.n[st.ID])
	case "rmother":
		w.g.RemoveNode(r.ws[st.O-1].n[st.ID])
	case "clone":
		if f := r.clone(w); f != nil {
			return f
		}
	case "sub":
		if f := r.sub(w, st); f != nil {
			return f
		}
	default:
		drive.Fail("no step %s", st.A)
	}
	if n != nil {
		if old, ok := w.n[st.ID]; ok {
			if old != n {
				return bad("ident", "%s %s%v%s built twice gives two nodes", st.A, st.Op, st.Ch, st.V)
			}
		} else {
			for id, m := range w.n {
				if m == n {
					return bad("ident", "%s %s%v%s%s gives node %d, which is something else", st.A, st.Op, st.Ch, st.Nm, st.V, id)
				}
			}
		}
		if n.Graph() != w.g {
			return bad("graph", "%s: the node is not of its graph", st.A)
		}
		w.n[st.ID] = n
	}
	for k := range st.Q {
		if f := r.query(r.ws[k], &st.Q[k]); f != nil {
			f.Detail = fmt.Sprintf("graph %d after %s: %s", k+1, st.A, f.Detail)
			return f
		}
	}
	return nil
}

func (r *run) clone(w *world) *drive.Finding {
	g2 := w.g.Clone().(*G.ExprGraph)
	w2 := &world{g2, map[int]*G.Node{}}
	live := map[*G.Node]bool{}
	for _, n := range w.g.AllNodes() {
		live[n] = true
	}
	for id, n := range w.n {
		if !live[n] {
			w2.n[id] = n // removed earlier: of no graph
			continue
		}
		for _, m := range g2.AllNodes() {
			if m.ID() == n.ID() {
				w2.n[id] = m
			}
		}
		m := w2.n[id]
		if m == nil {
			return bad("clone", "the clone lacks %v", n)
		}
		if m == n {
			return bad("clone", "the clone shares the node %v", n)
		}
		if m.String() != n.String() || m.Name() != n.Name() || !m.Shape().Eq(n.Shape()) || m.Graph() != g2 {
			return bad("clone", "the clone of %v is %v", n, m)
		}
	}
	r.ws = append(r.ws, w2)
	return nil
}

func (r *run) sub(w *world, st *step) *drive.Finding {
	var roots G.Nodes
	for _, c := range st.Ch {
		roots = append(roots, w.n[c])
	}
	var sg *G.ExprGraph
	switch st.How {
	case "roots":
		sg = w.g.SubgraphRoots(roots...)
	case "exact":
		sg = w.g.ExactSubgraphRoots(roots...)
	case "one":
		sg = w.g.Subgraph(roots...)
	}
	if f := r.same(w, "sub", "nodes of the sub-graph", sg.AllNodes(), st.Nodes); f != nil {
		return f
	}
	for _, id := range st.Nodes {
		if !sg.Has(w.n[id].ID()) || sg.Node(w.n[id].ID()) != graph.Node(w.n[id]) {
			return bad("sub", "the sub-graph does not find %v", w.n[id])
		}
	}
	if f := r.same(w, "sub", "roots of the sub-graph", sg.Roots(), st.Ch); f != nil {
		return f
	}
	sorted, err := G.Sort(sg)
	if err != nil {
		return bad("sub", "Sort of the sub-graph: %v", err)
	}
	return r.same(w, "sub", "sorted nodes of the sub-graph", sorted, st.Nodes)
}

func (w *world) ids(ns G.Nodes) []int {
	out := []int{}
	for _, n := range ns {
		k := 0
		for id, m := range w.n {
			if m == n {
				k = id
			}
		}
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (r *run) same(w *world, kind, what string, got G.Nodes, want []int) *drive.Finding {
	r.cmp++
	a := w.ids(got)
	b := append([]int{}, want...)
	sort.Ints(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return bad(kind, "%s: %v, expected %v", what, a, b)
	}
	return nil
}

func list(it graph.Nodes) (r G.Nodes) {
	if it == nil {
		return nil
	}
	for it.Next() {
		r = append(r, it.Node().(*G.Node))
	}
	return
}
func uniq(ns G.Nodes) (r G.Nodes) {
	seen := map[*G.Node]bool{}
	for _, n := range ns {
		if !seen[n] {
			r = append(r, n)
		}
		seen[n] = true
	}
	return
}

func (r *run) query(w *world, q *snap) *drive.Finding {
	g := w.g
	if f := r.same(w, "nodes", "AllNodes", append(G.Nodes{}, g.AllNodes()...), q.Nodes); f != nil {
		return f
	}
	if f := r.same(w, "nodes", "Nodes", list(g.Nodes()), q.Nodes); f != nil {
		return f
	}
	ids := map[int64]bool{}
	for _, k := range q.Nodes {
		n := w.n[k]
		if ids[n.ID()] {
			return bad("ids", "two nodes have the identifier %d", n.ID())
		}
		ids[n.ID()] = true
		if !g.Has(n.ID()) || g.Node(n.ID()) != graph.Node(n) {
			return bad("ids", "the node with the identifier %d of %v is %v", n.ID(), n, g.Node(n.ID()))
		}
	}
	for _, k := range q.Dead {
		if id := w.n[k].ID(); !ids[id] {
			if f := gone(g, id); f != nil {
				return f
			}
		}
	}
	if f := gone(g, 1<<40); f != nil {
		return f
	}
	edge := map[[2]int]bool{}
	from, to := map[int][]int{}, map[int][]int{}
	for _, e := range q.Edges {
		edge[e] = true
		from[e[0]] = append(from[e[0]], e[1])
		to[e[1]] = append(to[e[1]], e[0])
	}
	for _, u := range append(append([]int{}, q.Nodes...), q.Dead...) {
		for _, v := range append(append([]int{}, q.Nodes...), q.Dead...) {
			a, b := w.n[u].ID(), w.n[v].ID()
			want, back := edge[[2]int{u, v}], edge[[2]int{v, u}]
			if g.HasEdgeFromTo(a, b) != want {
				return bad("edges", "HasEdgeFromTo(%d, %d) is %v", u, v, !want)
			}
			if g.HasEdgeBetween(a, b) != (want || back) {
				return bad("edges", "HasEdgeBetween(%d, %d) is %v", u, v, !(want || back))
			}
			e := g.Edge(a, b)
			if (e != nil) != want {
				return bad("edges", "Edge(%d, %d) is %v", u, v, e)
			}
			if e != nil && (e.From() != graph.Node(w.n[u]) || e.To() != graph.Node(w.n[v])) {
				return bad("edges", "Edge(%d, %d) leads from %v to %v", u, v, e.From(), e.To())
			}
			r.cmp += 3
		}
	}
	for _, u := range q.Nodes {
		if f := r.same(w, "edges", fmt.Sprintf("From(%d)", u), uniq(list(g.From(w.n[u].ID()))), from[u]); f != nil {
			return f
		}
		if f := r.same(w, "edges", fmt.Sprintf("To(%d)", u), list(g.To(w.n[u].ID())), to[u]); f != nil {
			return f
		}
	}
	got := map[[2]int]bool{}
	for it := g.Edges(); it.Next(); {
		e := it.Edge()
		p := [2]int{w.ids(G.Nodes{e.From().(*G.Node)})[0], w.ids(G.Nodes{e.To().(*G.Node)})[0]}
		if !edge[p] {
			return bad("edges", "Edges has an edge from %d to %d", p[0], p[1])
		}
		if got[p] {
			return bad("edges", "Edges has the edge from %d to %d twice", p[0], p[1])
		}
		got[p] = true
	}
	if len(got) != len(edge) {
		return bad("edges", "Edges has %d edges, expected %d", len(got), len(edge))
	}
	if f := r.same(w, "roots", "Roots", g.Roots(), q.Roots); f != nil {
		return f
	}
	if f := r.same(w, "inputs", "Inputs", g.Inputs(), q.Ins); f != nil {
		return f
	}
	for _, nm := range names {
		var want []int
		for k := range q.Names {
			if q.Names[k] == nm {
				want = append(want, q.Ins[k])
			}
		}
		if f := r.same(w, "names", "ByName "+nm, g.ByName(realName(nm)), want); f != nil {
			return f
		}
	}
	for _, s := range []struct {
		what string
		f    func(*G.ExprGraph) (G.Nodes, error)
	}{{"Sort", G.Sort}, {"UnstableSort", G.UnstableSort}} {
		sorted, err := s.f(g)
		if err != nil {
			return bad("order", "%s: %v", s.what, err)
		}
		if f := r.same(w, "order", s.what, sorted, q.Nodes); f != nil {
			return f
		}
		pos := map[*G.Node]int{}
		for i, n := range sorted {
			pos[n] = i
		}
		for e := range edge {
			if pos[w.n[e[0]]] >= pos[w.n[e[1]]] {
				return bad("order", "%s has %d, an operand of %d, first", s.what, e[1], e[0])
			}
		}
	}
	_ = g.String()
	_ = g.ToDot()
	return nil
}

func gone(g *G.ExprGraph, id int64) *drive.Finding {
	if g.Has(id) {
		return bad("ids", "the graph claims to have a node it does not have")
	}
	if n := g.Node(id); n != nil {
		return bad("ids", "Node of an identifier that is not in the graph is not nil")
	}
	if g.From(id) == nil || g.To(id) == nil {
		return bad("edges", "From or To of an identifier that is not in the graph is nil")
	}
	if len(list(g.From(id))) > 0 || len(list(g.To(id))) > 0 {
		return bad("edges", "a node that is not in the graph has edges")
	}
	return nil
}
