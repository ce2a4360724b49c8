package sess

import (
	"fmt"
	"hash"
	"hash/fnv"
	"runtime"
	"strings"
	"time"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

// flaky is an operator of our own: the identity of one operand or the sum of
// two. It fails on demand.
type flaky struct {
	arity, mode int
	bwd         bool // the derivative of an operator
	of          *flaky
	fail        [2]error
	ran         [2]int
}

func (f *flaky) Arity() int { return f.arity }
func (f *flaky) Type() hm.Type {
	a := hm.TypeVariable('a')
	if f.arity == 1 {
		return hm.NewFnType(a, a)
	}
	return hm.NewFnType(a, a, a)
}
func (f *flaky) InferShape(ds ...G.DimSizer) (tensor.Shape, error) {
	return ds[0].(tensor.Shape).Clone(), nil
}
func (f *flaky) ReturnsPtr() bool     { return true }
func (f *flaky) CallsExtern() bool    { return false }
func (f *flaky) OverwritesInput() int { return -1 }
func (f *flaky) WriteHash(h hash.Hash) {
	fmt.Fprintf(h, "%v", f)
	if f.bwd {
		// every operator has a derivative of its own
		fmt.Fprintf(h, "%p", f.of)
	}
}
func (f *flaky) Hashcode() uint32 {
	h := fnv.New32a()
	f.WriteHash(h)
	return h.Sum32()
}
func (f *flaky) String() string {
	if f.bwd {
		return fmt.Sprintf("∂flaky%d/%d", f.arity, f.mode)
	}
	return fmt.Sprintf("flaky%d/%d", f.arity, f.mode)
}

func (f *flaky) err() error {
	if f.bwd {
		f.of.ran[1]++
		return f.of.fail[1]
	}
	f.ran[0]++
	return f.fail[0]
}

// failed is the value that comes with an error; it means nothing
func (f *flaky) failed(v G.Value) G.Value {
	if f.arity == 2 {
		return v
	}
	return nil
}

func (f *flaky) Do(vs ...G.Value) (G.Value, error) {
	if len(vs) != f.arity {
		drive.Fail("flaky operator of arity %d was given %d operands", f.arity, len(vs))
	}
	if err := f.err(); err != nil {
		return f.failed(vs[0]), err
	}
	r, err := G.CloneValue(vs[0])
	if err != nil {
		return nil, err
	}
	if f.arity == 2 {
		addTo(r, vs[1])
	}
	return r, nil
}

func addTo(r, x G.Value) {
	a, _, err := Flat(r)
	if err != nil {
		drive.Fail("%v", err)
	}
	b, _, err := Flat(x)
	if err != nil {
		drive.Fail("%v", err)
	}
	for i := range a {
		a[i] += b[i]
	}
	SetValue(r, a)
}

func (f *flaky) SymDiff(in G.Nodes, out, grad *G.Node) (G.Nodes, error) {
	d, err := G.ApplyOp(wrapFlaky(&flaky{arity: 1, mode: f.mode, bwd: true, of: f}), grad)
	if err != nil {
		return nil, err
	}
	r := make(G.Nodes, len(in))
	for i := range r {
		r[i] = d
	}
	return r, nil
}

func (f *flaky) DiffWRT(n int) []bool {
	r := make([]bool, n)
	for i := range r {
		r[i] = true
	}
	return r
}

func (f *flaky) DoDiff(ctx G.ExecutionContext, in G.Nodes, out *G.Node) error {
	f.ran[1]++
	if err := f.fail[1]; err != nil {
		return err
	}
	g, err := out.Grad()
	if err != nil {
		return err
	}
	for _, n := range in {
		d, err := n.Grad()
		if err != nil {
			return err
		}
		addTo(d, g)
	}
	return nil
}

// flakyPre can write its result to a place
type flakyPre struct{ *flaky }

func (f flakyPre) UsePreallocDo(p G.Value, vs ...G.Value) (G.Value, error) {
	r, err := f.Do(vs...)
	if err != nil {
		return f.failed(p), err
	}
	return G.Copy(p, r)
}

// flakyUnsafe overwrites its first operand
type flakyUnsafe struct{ *flaky }

func (f flakyUnsafe) OverwritesInput() int { return 0 }
func (f flakyUnsafe) UnsafeDo(vs ...G.Value) (G.Value, error) {
	if err := f.err(); err != nil {
		return f.failed(vs[0]), err
	}
	if f.arity == 2 {
		addTo(vs[0], vs[1])
	}
	return vs[0], nil
}

func wrapFlaky(f *flaky) G.Op {
	switch f.mode {
	case 1:
		return flakyPre{f}
	case 2:
		return flakyUnsafe{f}
	}
	return f
}

func theFlaky(op G.Op) *flaky {
	switch o := op.(type) {
	case *flaky:
		return o
	case flakyPre:
		return o.flaky
	case flakyUnsafe:
		return o.flaky
	}
	return nil
}

// arm makes operators fail in the next run
func (s *Session) arm(w *world, st *Step) (causes []string) {
	for _, n := range w.n {
		if f := theFlaky(n.Op()); f != nil {
			f.fail = [2]error{}
			f.ran = [2]int{}
		}
	}
	for _, x := range st.Fails {
		f := theFlaky(w.n[x[0]].Op())
		if f == nil {
			drive.Fail("node %d cannot fail", x[0])
		}
		f.fail[x[1]] = fmt.Errorf("failure %d/%d of step %d;", x[0], x[1], s.step)
		causes = append(causes, f.fail[x[1]].Error())
	}
	return
}

// failing carries out a run in which operators may fail
func (s *Session) failing(w *world, st *Step) *Finding {
	causes := s.arm(w, st)
	before := runtime.NumGoroutine()
	err := w.vm.RunAll()
	if f := s.quiet(before); f != nil {
		return f
	}
	hit := map[*G.Node]string{}
	for _, x := range st.Fails {
		n := w.n[x[0]]
		if f := theFlaky(n.Op()); f.ran[x[1]] > 0 {
			hit[n] = fmt.Sprint(x)
		}
	}
	switch {
	case err == nil && st.Must:
		return s.fail("fails", "%s machine: RunAll succeeded although operators failed: %v", w.kind, causes)
	case err == nil && len(hit) > 0:
		return s.fail("fails", "%s machine: RunAll succeeded although operators returned errors: %v", w.kind, hit)
	case err == nil:
		return s.observe(w, st)
	case len(causes) == 0:
		return s.fail("run", "RunAll: unexpected error: %v", err)
	}
	s.Compared++
	named := false
	for _, c := range causes {
		named = named || strings.Contains(err.Error(), c)
	}
	if !named {
		return s.fail("cause", "%s machine: the error does not tell the cause (one of %q): %v", w.kind, causes, err)
	}
	// if the error tells the node, it must be a node whose operator has failed
	if ce, ok := err.(interface{ Node() *G.Node }); ok && ce.Node() != nil {
		n := ce.Node()
		f := theFlaky(n.Op())
		if f == nil || (f.bwd && f.of.fail[1] == nil) || (!f.bwd && f.fail == [2]error{}) {
			return s.fail("cause", "%s machine: the error names node %v, which has not failed: %v", w.kind, n, err)
		}
	}
	return nil
}

// quiet waits until no more goroutines are there than before
func (s *Session) quiet(before int) *Finding {
	for k := 0; ; k++ {
		if runtime.NumGoroutine() <= before {
			return nil
		}
		if k == 300 {
			buf := make([]byte, 1<<16)
			return s.fail("leak", "%d goroutines after the run, %d before it: %s", runtime.NumGoroutine(), before, drive.Trim(string(buf[:runtime.Stack(buf, true)])))
		}
		if k < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(10 * time.Millisecond)
		}
	}
}
