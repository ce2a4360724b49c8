// coll replays histories of operations on node lists and node sets.
package main

import (
	"encoding/json"
	"fmt"
	"sort"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

type step struct {
	A    string  `json:"a"`
	R    int     `json:"r"`
	S    int     `json:"s"`
	D    int     `json:"d"`
	X    []int   `json:"x"`
	B    *bool   `json:"b"`
	C    *int    `json:"c"`
	Cap  int     `json:"cap"`
	Regs []int   `json:"regs"`
	Ls   [][]int `json:"ls"`
	Ss   [][]int `json:"ss"`
}

var univ []*G.Node

func init() {
	g := G.NewGraph()
	for i := 0; i < 8; i++ {
		univ = append(univ, G.NewScalar(g, tensor.Float64, G.WithName(fmt.Sprintf("n%d", i))))
	}
}

func nodes(x []int, spare int) G.Nodes {
	r := make(G.Nodes, len(x), len(x)+spare)
	for i, k := range x {
		r[i] = univ[k]
	}
	return r
}

func ids(ns G.Nodes) []int {
	r := []int{}
	for _, n := range ns {
		k := -1
		for i, u := range univ {
			if u == n {
				k = i
			}
		}
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func setIDs(s G.NodeSet) []int {
	var ns G.Nodes
	for n := range s {
		ns = append(ns, n)
	}
	return ids(ns)
}

func eq(a, b []int) bool {
	b = append([]int(nil), b...)
	sort.Ints(b)
	return fmt.Sprint(append([]int{}, a...)) == fmt.Sprint(append([]int{}, b...))
}

func replay(raw []byte) (res drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	res.Steps = len(tr)
	k := 0
	res.Finding = drive.Guard(&k, func() *drive.Finding {
		L := make([]G.Nodes, 9)
		S := make([]G.NodeSet, 9)
		for i := range S {
			S[i] = G.NewNodeSet()
		}
		for k = range tr {
			st := tr[k]
			fail := func(f string, a ...interface{}) *drive.Finding {
				return &drive.Finding{Kind: "coll", Step: k, Detail: fmt.Sprintf("%s(r%d, r%d -> r%d) %v: ", st.A, st.R, st.S, st.D, st.X) + fmt.Sprintf(f, a...)}
			}
			var b bool
			c := -1
			r, s, d := st.R, st.S, st.D
			switch st.A {
			case "init":
				for i := range st.Ls {
					L[i+1] = nodes(st.Ls[i], st.Cap)
				}
				for i := range st.Ss {
					S[i+1] = G.NewNodeSet(nodes(st.Ss[i], 0)...)
				}
				continue
			case "new":
				L[r] = nodes(st.X, st.Cap)
			case "add":
				L[r] = L[r].Add(univ[st.X[0]])
			case "has":
				b = L[r].Contains(univ[st.X[0]])
			case "uniq":
				L[r] = L[r].Set()
			case "diff":
				L[d] = L[r].Difference(L[s])
			case "inter":
				L[d] = L[r].Intersect(L[s])
			case "equals":
				b = L[r].Equals(L[s])
			case "toset":
				S[d] = G.NewNodeSet(L[r]...)
			case "tolist":
				L[d] = S[r].ToSlice()
			case "sadd":
				b = S[r].Add(univ[st.X[0]])
			case "srem":
				S[r].Remove(univ[st.X[0]])
			case "shas":
				b = S[r].Contains(univ[st.X[0]])
			case "sall":
				b = S[r].ContainsAll(L[s]...)
			case "card":
				c = S[r].Cardinality()
			case "clear":
				S[r].Clear()
			case "union":
				S[d] = S[r].Union(S[s])
			case "sinter":
				S[d] = S[r].Intersect(S[s])
			case "sdiff":
				S[d] = S[r].Difference(S[s])
			case "symdiff":
				S[d] = S[r].SymmetricDifference(S[s])
			case "clone":
				S[d] = S[r].Clone()
			case "iter":
				x := G.NewNodeSet()
				for n := range S[r].Iter() {
					if !x.Add(n) {
						return fail("the iteration yields an element twice")
					}
				}
				S[d] = x
			case "subset":
				b = S[r].IsSubset(S[s])
			case "superset":
				b = S[r].IsSuperset(S[s])
			case "sequal":
				b = S[r].Equal(S[s])
			default:
				drive.Fail("unknown step %q", st.A)
			}
			if st.B != nil && b != *st.B {
				return fail("returned %v", b)
			}
			if st.C != nil && c != *st.C {
				return fail("returned %v, expected %d", c, *st.C)
			}
			for j, i := range st.Regs {
				res.Compared++
				if !eq(ids(L[i]), st.Ls[j]) {
					return fail("list r%d is now %v, expected %v", i, ids(L[i]), st.Ls[j])
				}
			}
			for j := range st.Ss {
				res.Compared++
				if !eq(setIDs(S[j+1]), st.Ss[j]) {
					return fail("set r%d is now %v, expected %v", j+1, setIDs(S[j+1]), st.Ss[j])
				}
			}
		}
		return nil
	})
	return
}

func main() { drive.Main(replay) }
