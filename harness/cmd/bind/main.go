// bind replays histories of binding values to nodes and running.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
	"verif/vals"
)

type step struct {
	A     string `json:"a"`
	M     string `json:"m"`
	Nodes []struct {
		Dt string `json:"dt"`
		Sh []int  `json:"sh"`
	} `json:"nodes"`
	T  string `json:"t"`
	I  int    `json:"i"`
	K  string `json:"k"`
	Dt string `json:"dt"`
	Sh []int  `json:"sh"`
	X  []int  `json:"x"`
	Ok bool   `json:"ok"`
	In []struct {
		X []int `json:"x"`
	} `json:"in"`
	Out []int `json:"out"`
}

func offer(st step) interface{} {
	switch st.K {
	case "go":
		return vals.Conv(st.Dt, st.X[0])
	case "nil":
		return nil
	case "str":
		return "1"
	case "slice":
		return []float64{1, 2}
	}
	return vals.Make(vals.Desc{K: st.K, Dt: st.Dt, Sh: st.Sh, X: st.X})
}

func snap(v G.Value) string {
	if v == nil || reflect.ValueOf(v).IsNil() {
		return "nothing"
	}
	return fmt.Sprintf("%v %v %v", v.Dtype(), v.Shape(), v.Data())
}

func replay(raw []byte) (res drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	res.Steps = len(tr)
	k := 0
	res.Finding = drive.Guard(&k, func() *drive.Finding {
		g := G.NewGraph()
		var in, op []*G.Node
		var out []G.Value
		var c *G.Node
		var vm G.VM
		for k = range tr {
			st := tr[k]
			fail := func(f string, a ...interface{}) *drive.Finding {
				return &drive.Finding{Kind: "bind", Step: k, Detail: fmt.Sprintf(f, a...)}
			}
			switch st.A {
			case "graph":
				out = make([]G.Value, len(st.Nodes))
				for i, d := range st.Nodes {
					name := G.WithName(fmt.Sprintf("x%d", i))
					dt := vals.Dtypes[d.Dt]
					var n *G.Node
					if len(d.Sh) == 0 {
						n = G.NewScalar(g, dt, name)
					} else {
						n = G.NewTensor(g, dt, len(d.Sh), G.WithShape(d.Sh...), name)
					}
					s := n
					var err error
					if len(d.Sh) > 0 {
						if s, err = G.Sum(n); err != nil {
							drive.Fail("sum: %v", err)
						}
					}
					if s, err = G.Add(s, s); err != nil {
						drive.Fail("add: %v", err)
					}
					G.Read(s, &out[i])
					in, op = append(in, n), append(op, s)
				}
				c = g.AddNode(G.NewConstant(3.0))
				if st.M == "lisp" {
					// the machine differentiates every root: leave the constant out
					c = G.NewConstant(3.0)
				}
				switch st.M {
				case "tape":
					vm = G.NewTapeMachine(g)
				case "lispfwd":
					vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
				default:
					vm = G.NewLispMachine(g)
				}
				defer func() { vm.Close() }()
				continue
			case "let":
				var n *G.Node
				switch st.T {
				case "in":
					n = in[st.I-1]
				case "op":
					n = op[st.I-1]
				default:
					n = c
				}
				before := snap(n.Value())
				err := G.Let(n, offer(st))
				what := fmt.Sprintf("binding a %s %s%v to the %s node %v of shape %v", st.K, st.Dt, st.Sh, st.T, n.Type(), n.Shape())
				if st.Ok && err != nil {
					return fail("%s: refused: %v", what, err)
				}
				if !st.Ok && err == nil {
					return fail("%s: not refused", what)
				}
				if after := snap(n.Value()); !st.Ok && before != after {
					return fail("%s: the node held %s and now holds %s", what, before, after)
				}
			case "run":
				if err := vm.RunAll(); err != nil {
					return fail("run: %v", err)
				}
				vm.Reset()
				for i, x := range st.Out {
					res.Compared++
					d := tr[0].Nodes[i]
					if m := vals.Differs(scalar(out[i]), vals.Desc{K: "prim", Dt: d.Dt, X: []int{x}}); m != "" {
						return fail("run: the value read back %s", m)
					}
				}
			default:
				drive.Fail("unknown step %q", st.A)
			}
			for i, e := range st.In {
				d := tr[0].Nodes[i]
				if len(e.X) == 0 {
					if s := snap(in[i].Value()); s != "nothing" {
						return fail("%s: unbound input %d holds %s", st.A, i+1, s)
					}
					continue
				}
				res.Compared++
				v := in[i].Value()
				kind := "tens"
				if len(d.Sh) == 0 {
					kind, v = "prim", scalar(v)
				}
				if m := vals.Differs(v, vals.Desc{K: kind, Dt: d.Dt, Sh: d.Sh, X: e.X}); m != "" {
					return fail("%s: input %d %s", st.A, i+1, m)
				}
			}
		}
		return nil
	})
	return
}

// scalar takes a scalar out of a tensor: the property does not say how a scalar is held
func scalar(v G.Value) G.Value {
	if t, ok := v.(*tensor.Dense); ok && t.IsScalar() {
		switch x := t.ScalarValue().(type) {
		case float64:
			return G.NewF64(x)
		case float32:
			return G.NewF32(x)
		case int:
			return G.NewI(x)
		case int64:
			return G.NewI64(x)
		case int32:
			return G.NewI32(x)
		}
	}
	return v
}

func main() { drive.Main(replay) }
