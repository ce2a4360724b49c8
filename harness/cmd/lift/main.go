// lift replays compositions of lifted functions.
package main

import (
	"encoding/json"
	"fmt"

	"github.com/pkg/errors"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

type res struct {
	K string `json:"k"`
	V int    `json:"v"`
	W string `json:"w"`
}

type step struct {
	A      string `json:"a"`
	Args   []int  `json:"args"`
	Called bool   `json:"called"`
	Fails  bool   `json:"fails"`
	New    int    `json:"new"`
	With   []int  `json:"with"`
	Res    res    `json:"res"`
}

// own is a type of the caller's that knows how to make a new one of its kind
type own struct {
	n    *G.Node
	made int
}

func (o *own) Node() *G.Node  { return o.n }
func (o *own) Nodes() G.Nodes { return G.Nodes{o.n} }
func (o *own) Err() error     { return nil }
func (o *own) Mk(x ...G.Input) G.Input {
	return &own{x[0].Node(), o.made + 1}
}

// plain is an Input that is no Result
type plain struct{ n *G.Node }

func (p plain) Node() *G.Node  { return p.n }
func (p plain) Nodes() G.Nodes { return G.Nodes{p.n} }

type failure int

func (f failure) Error() string { return fmt.Sprintf("failure %d", int(f)) }

var pool []*G.Node

func init() {
	g := G.NewGraph()
	for i := 0; i < 200; i++ {
		pool = append(pool, G.NewScalar(g, tensor.Float64, G.WithName(fmt.Sprintf("n%d", i))))
	}
}

func replay(raw []byte) (out drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	out.Steps = len(tr)
	k := 0
	out.Finding = drive.Guard(&k, func() *drive.Finding {
		R := []G.Input{nil, pool[1], pool[2], &own{pool[1], 0}, plain{pool[2]}, G.Err(failure(1))}
		for k = range tr {
			st := tr[k]
			fail := func(f string, a ...interface{}) *drive.Finding {
				return &drive.Finding{Kind: "lift", Step: k, Detail: fmt.Sprintf("%s%v: ", st.A, st.Args) + fmt.Sprintf(f, a...)}
			}
			called := 0
			var got []*G.Node
			do := func(ns ...*G.Node) (*G.Node, error) {
				called++
				got = ns
				if st.Fails {
					return nil, failure(st.New)
				}
				return pool[st.New], nil
			}
			axes := []int{1, 0}
			p1, p2 := []byte{0}, []byte{1}
			var okExtra = true
			in := make([]G.Input, len(st.Args))
			for i, a := range st.Args {
				in[i] = R[a]
			}
			var r G.Result
			switch st.A {
			case "lift1":
				r = G.Lift1(func(a *G.Node) (*G.Node, error) { return do(a) })(in[0])
			case "axial":
				r = G.Lift1Axial(func(a *G.Node, ax ...int) (*G.Node, error) {
					okExtra = fmt.Sprint(ax) == fmt.Sprint(axes)
					return do(a)
				})(in[0], axes...)
			case "lift2":
				r = G.Lift2(func(a, b *G.Node) (*G.Node, error) { return do(a, b) })(in[0], in[1])
			case "bcast":
				r = G.Lift2Broadcast(func(a, b *G.Node, x, y []byte) (*G.Node, error) {
					okExtra = fmt.Sprint(x, y) == fmt.Sprint(p1, p2)
					return do(a, b)
				})(in[0], in[1], p1, p2)
			case "wrap":
				var err error
				if st.Fails {
					err = failure(st.New)
				}
				r = G.LiftResult(in[0], err)
			case "check":
				err := G.CheckOne(in[0])
				if (err != nil) != st.Fails {
					return fail("CheckOne says %v", err)
				}
				if err != nil && errors.Cause(err) != failure(st.Res.V) {
					return fail("CheckOne says %v, expected failure %d", err, st.Res.V)
				}
				continue
			case "collect":
				ns, err := G.NodesFromInputs(in...)
				if (err != nil) != st.Fails {
					return fail("NodesFromInputs: %v", err)
				}
				if err != nil {
					if errors.Cause(err) != failure(st.Res.V) || ns != nil {
						return fail("NodesFromInputs says %v with %v, expected failure %d", err, ns, st.Res.V)
					}
					continue
				}
				for i, w := range st.With {
					if len(ns) != len(st.With) || ns[i] != pool[w] {
						return fail("NodesFromInputs gives %v", ns)
					}
				}
				continue
			default:
				drive.Fail("unknown step %q", st.A)
			}
			out.Compared++
			want := 0
			if st.Called {
				want = 1
			}
			if called != want {
				return fail("the function was called %d times, expected %d", called, want)
			}
			if st.Called {
				for i, w := range st.With {
					if len(got) != len(st.With) || got[i] != pool[w] {
						return fail("the function was called with %v", got)
					}
				}
				if !okExtra {
					return fail("the function did not get the other arguments")
				}
			}
			if r == nil {
				return fail("no result")
			}
			err := r.Err()
			if st.Res.K == "err" {
				if err == nil {
					return fail("the result is free of errors, expected failure %d", st.Res.V)
				}
				if errors.Cause(err) != failure(st.Res.V) {
					return fail("the result is %v, expected failure %d", errors.Cause(err), st.Res.V)
				}
				if r.Node() != nil {
					return fail("the failed result has a node")
				}
			} else {
				if err != nil {
					return fail("unexpected error %v", err)
				}
				if r.Node() != pool[st.Res.V] {
					return fail("the result is node %v, expected %v", r.Node(), pool[st.Res.V])
				}
				_, isOwn := r.(*own)
				if isOwn != (st.Res.W == "own") {
					return fail("the result has type %T", r)
				}
			}
			R = append(R, r)
		}
		return nil
	})
	return
}

func main() { drive.Main(replay) }
