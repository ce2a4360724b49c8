package sess

import (
	"context"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
)

// conc runs a graph on the machine with one goroutine per node. That takes
// the values of the inputs when it is made.
type conc struct {
	g *G.ExprGraph
	m *xvm.Machine
}

func (c *conc) RunAll() error {
	c.Close()
	c.m = xvm.NewMachine(c.g)
	return c.m.Run(context.Background())
}

func (c *conc) Reset() {}

func (c *conc) Close() error {
	if c.m != nil {
		c.m.Close()
		c.m = nil
	}
	return nil
}

// value of a node after a run
func (w *world) value(n *G.Node) G.Value {
	if c, ok := w.vm.(*conc); ok {
		return c.m.GetResult(n.ID())
	}
	return n.Value()
}
