package sess

import (
	"crypto/sha1"
	"fmt"

	G "gorgonia.org/gorgonia"
)

// Collide makes sessions give the first two inputs of the same type and shape
// names with which their nodes have the same hash.
var Collide bool

type pair struct{ a, b string }

var pairs = map[string]*pair{}

func input(g *G.ExprGraph, dt string, sh []int, opts ...G.NodeConsOpt) *G.Node {
	if len(sh) > 0 {
		opts = append([]G.NodeConsOpt{G.WithShape(sh...)}, opts...)
	}
	switch len(sh) {
	case 0:
		return G.NewScalar(g, Dtype(dt), opts...)
	case 1:
		return G.NewVector(g, Dtype(dt), opts...)
	case 2:
		return G.NewMatrix(g, Dtype(dt), opts...)
	}
	return G.NewTensor(g, Dtype(dt), len(sh), opts...)
}

func (w *world) inputName(st *Step) string {
	if !Collide {
		return fmt.Sprintf("x%d", st.ID)
	}
	key := fmt.Sprint(st.Dt, st.Sh)
	if w.named == nil {
		w.named = map[string]int{}
	}
	w.named[key]++
	p := colliding(key, st.Dt, st.Sh)
	switch w.named[key] {
	case 1:
		return p.a
	case 2:
		return p.b
	}
	return fmt.Sprintf("x%d", st.ID)
}

// colliding looks for two names
func colliding(key, dt string, sh []int) *pair {
	if p, ok := pairs[key]; ok {
		return p
	}
	p := &pair{"a", "b"}
	pairs[key] = p
	seen := map[uint32]string{}
	for i := 0; i < 400000; i++ {
		s := fmt.Sprintf("%x", sha1.Sum([]byte(fmt.Sprint(i))))[:10]
		h := input(G.NewGraph(), dt, sh, G.WithName(s)).Hashcode()
		if t, ok := seen[h]; ok {
			p.a, p.b = t, s
			break
		}
		seen[h] = s
	}
	return p
}
