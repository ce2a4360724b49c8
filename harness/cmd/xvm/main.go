// xvm replays histories of runs on the machine with one goroutine per node.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"hash/fnv"
	"runtime"
	"sync"
	"time"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/tensor"
	"verif/drive"
)

type step struct {
	A         string  `json:"a"`
	Kids      [][]int `json:"kids"`
	Cs        []int   `json:"cs"`
	Cancelled bool    `json:"cancelled"`
	Trace     bool    `json:"trace"`
	Starts    []int   `json:"starts"`
	I         int     `json:"i"`
	V         int     `json:"v"`
	Must      string  `json:"must"`
	Vals      []int   `json:"vals"`
}

const patience = 20 * time.Second

// gated is an operator that waits to be told how to end
type gated struct {
	h  *harness
	id int // node, from 1
	c  int
	n  int // operands
}

var errAsked = errors.New("failed as asked")

type harness struct {
	sync.Mutex
	kids   [][]int
	run    int
	open   bool // let everything pass
	gates  map[int]chan error
	starts map[int]int
	vals   map[int]int // computed in this run
	wrong  string
	moved  chan struct{}
}

var weights = []int{2, 3, 5, 7, 11}

func (g *gated) Do(vs ...G.Value) (G.Value, error) {
	h := g.h
	h.Lock()
	v := g.c + h.run
	if len(vs) != g.n {
		h.wrong = fmt.Sprintf("operator %d was given %d operands, has %d", g.id, len(vs), g.n)
	}
	for p, x := range vs {
		if x == nil {
			h.wrong = fmt.Sprintf("operator %d was run without operand %d", g.id, p)
			continue
		}
		f, ok := x.Data().(float64)
		if !ok {
			h.wrong = fmt.Sprintf("operator %d was given %T as operand %d", g.id, x.Data(), p)
			continue
		}
		v += weights[p] * int(f)
		k := h.kids[g.id-1][p]
		if want, ok := h.vals[k]; !ok || want != int(f) {
			h.wrong = fmt.Sprintf("operator %d was given %v as operand %d, node %d has the value %v (computed: %v)", g.id, f, p, k, want, ok)
		}
	}
	v %= 1009
	h.starts[g.id]++
	if h.starts[g.id] > 1 {
		h.wrong = fmt.Sprintf("operator %d ran %d times", g.id, h.starts[g.id])
	}
	gate := h.gates[g.id]
	if h.open && gate == nil {
		gate = make(chan error, 1)
		gate <- nil
	}
	if gate == nil {
		gate = make(chan error, 1)
		h.gates[g.id] = gate
	}
	h.Unlock()
	h.poke()
	err := <-gate
	if err != nil {
		return nil, err
	}
	h.Lock()
	h.vals[g.id] = v
	h.Unlock()
	r := G.F64(v)
	return &r, nil
}

func (h *harness) poke() {
	select {
	case h.moved <- struct{}{}:
	default:
	}
}

func (g *gated) Arity() int { return g.n }
func (g *gated) Type() hm.Type {
	ts := make([]hm.Type, g.n+1)
	for i := range ts {
		ts[i] = G.Float64
	}
	return hm.NewFnType(ts...)
}
func (g *gated) InferShape(...G.DimSizer) (tensor.Shape, error) { return tensor.ScalarShape(), nil }
func (g *gated) ReturnsPtr() bool                               { return false }
func (g *gated) CallsExtern() bool                              { return false }
func (g *gated) OverwritesInput() int                           { return -1 }
func (g *gated) WriteHash(h hash.Hash)                          { fmt.Fprint(h, g.String()) }
func (g *gated) Hashcode() uint32 {
	h := fnv.New32a()
	g.WriteHash(h)
	return h.Sum32()
}
func (g *gated) String() string { return fmt.Sprintf("gated%d", g.id) }

func replay(raw []byte) (res drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	res.Steps = len(tr)
	k := 0
	res.Finding = drive.Guard(&k, func() *drive.Finding {
		fail := func(kind, f string, a ...interface{}) *drive.Finding {
			return &drive.Finding{Kind: kind, Step: k, Detail: fmt.Sprintf(f, a...)}
		}
		h := &harness{moved: make(chan struct{}, 1)}
		var (
			nodes  []*G.Node
			m      *xvm.Machine
			cancel context.CancelFunc
			ret    chan error
			base   int
			drain  chan struct{}
			ctx    context.Context
			traced bool
		)
		// wait until cond holds
		wait := func(cond func() bool) bool {
			end := time.After(patience)
			for {
				h.Lock()
				ok := cond()
				h.Unlock()
				if ok {
					return true
				}
				select {
				case <-h.moved:
				case <-time.After(time.Millisecond):
				case <-end:
					return false
				}
			}
		}
		started := func(is []int) *drive.Finding {
			for _, i := range is {
				i := i
				if !wait(func() bool { return h.wrong != "" || h.starts[i] > 0 }) {
					return fail("hang", "operator %d does not start although its operands are there", i)
				}
				res.Compared++
			}
			h.Lock()
			defer h.Unlock()
			if h.wrong != "" {
				return fail("value", "%s", h.wrong)
			}
			return nil
		}
		release := func(i int, err error) {
			h.Lock()
			g := h.gates[i]
			if g == nil {
				g = make(chan error, 1)
				h.gates[i] = g
			}
			h.Unlock()
			g <- err
		}
		unleash := func() {
			h.Lock()
			h.open = true
			h.Unlock()
		}
		for k = range tr {
			st := &tr[k]
			switch st.A {
			case "graph":
				h.kids = st.Kids
				g := G.NewGraph()
				for i, ks := range st.Kids {
					if len(ks) == 0 {
						nodes = append(nodes, G.NewScalar(g, G.Float64, G.WithName(fmt.Sprintf("x%d", i+1)), G.WithValue(float64(st.Cs[i]))))
						continue
					}
					in := make([]*G.Node, len(ks))
					for p, j := range ks {
						in[p] = nodes[j-1]
					}
					n, err := G.ApplyOp(&gated{h: h, id: i + 1, c: st.Cs[i], n: len(ks)}, in...)
					if err != nil {
						return fail("build", "operator %d: %v", i+1, err)
					}
					nodes = append(nodes, n)
				}
				base = runtime.NumGoroutine()
				m = xvm.NewMachine(g)
				h.vals = map[int]int{}
				defer m.Close()
			case "begin":
				h.Lock()
				h.run++
				h.open = st.Cancelled
				h.gates, h.starts, h.vals = map[int]chan error{}, map[int]int{}, map[int]int{}
				for i, ks := range h.kids {
					if len(ks) == 0 {
						h.vals[i+1] = tr[0].Cs[i]
					}
				}
				h.Unlock()
				ctx, cancel = context.WithCancel(context.Background())
				if st.Cancelled {
					cancel()
				}
				traced = st.Trace
				if traced {
					var c <-chan xvm.Trace
					ctx, c = xvm.WithTracing(ctx)
					drain = make(chan struct{})
					go func(drain chan struct{}) {
						for range c {
						}
						close(drain)
					}(drain)
				}
				ret = make(chan error, 1)
				go func(ctx context.Context, ret chan error) { ret <- m.Run(ctx) }(ctx, ret)
				if f := started(st.Starts); f != nil {
					cancel()
					return f
				}
			case "finish":
				release(st.I, nil)
				if f := started(st.Starts); f != nil {
					return f
				}
			case "fail":
				unleash()
				release(st.I, errAsked)
			case "cancel":
				unleash()
				cancel()
			case "return":
				var err error
				select {
				case err = <-ret:
				case <-time.After(patience):
					return fail("hang", "the run does not return")
				}
				cancel()
				if traced {
					xvm.CloseTracing(ctx)
					<-drain
				}
				h.Lock()
				wrong, n := h.wrong, len(h.vals)
				h.Unlock()
				if wrong != "" {
					return fail("value", "%s", wrong)
				}
				if err != nil && st.Must == "ok" {
					return fail("run", "the run failed: %v", err)
				}
				if err == nil && st.Must == "error" {
					return fail("fails", "the run returned no error although an operator failed or it was cancelled")
				}
				if err == nil {
					if n != len(h.kids) {
						return fail("fails", "the run returned no error but only %d of %d nodes have been computed", n, len(h.kids))
					}
					for i, want := range st.Vals {
						v := m.GetResult(nodes[i].ID())
						if v == nil {
							return fail("value", "node %d has no result", i+1)
						}
						res.Compared++
						if f, ok := v.Data().(float64); !ok || int(f) != want {
							return fail("value", "node %d has the result %v, expected %d", i+1, v, want)
						}
					}
				}
				left := 0
				for end := time.Now().Add(patience); ; time.Sleep(200 * time.Microsecond) {
					if left = runtime.NumGoroutine() - base; left <= 0 || time.Now().After(end) {
						break
					}
				}
				if left > 0 {
					return fail("leak", "%d goroutines are left behind after the run (error: %v)", left, err)
				}
				res.Compared++
			default:
				drive.Fail("unknown step %q", st.A)
			}
		}
		return nil
	})
	return
}

func main() { drive.Main(replay) }
