// solver replays histories of solver steps.
package main

import (
	"encoding/json"
	"fmt"

	G "gorgonia.org/gorgonia"
	"verif/drive"
	"verif/sess"
	"verif/terms"
)

type upd struct {
	U [][]*terms.Term `json:"u"`
	P []*terms.Term   `json:"p"`
}

type step struct {
	A    string           `json:"a"`
	Kind string           `json:"kind"`
	Opts []sess.SolverOpt `json:"opts"`
	Sh   []int            `json:"sh"`
	Dt   string           `json:"dt"`
	How  string           `json:"how"`
	W    []float64        `json:"w"`
	K    int              `json:"k"`
	G    [][]float64      `json:"g"`
	Eta  *terms.Term      `json:"eta"`
	New  []upd            `json:"new"`
}

// own is a parameter of the caller's own type
type own struct {
	v, g G.Value
}

func (o *own) Value() G.Value         { return o.v }
func (o *own) Grad() (G.Value, error) { return o.g, nil }

type par struct {
	vg  G.ValueGrad
	sh  []int
	dt  string
	how string
}

func replay(raw []byte) (out drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	out.Steps = len(tr)
	k := 0
	out.Finding = drive.Guard(&k, func() *drive.Finding {
		var s G.Solver
		var name string
		var ps []par
		var model []G.ValueGrad
		g := G.NewGraph()
		reg := map[int64]terms.Num{}
		get := func(i int64) terms.Num { return reg[i] }
		u := terms.U64
		for k = range tr {
			st := tr[k]
			fail := func(f string, a ...interface{}) *drive.Finding {
				return &drive.Finding{Kind: "solver", Step: k, Detail: fmt.Sprintf("%s, %s: ", name, st.A) + fmt.Sprintf(f, a...)}
			}
			switch st.A {
			case "new":
				s = sess.NewSolver(st.Kind, sess.SolverOptions(st.Opts))
				name = fmt.Sprint(st.Kind, st.Opts)
			case "par":
				zero := make([]float64, len(st.W))
				v, d := sess.MakeValue(st.Dt, st.Sh, st.W), sess.MakeValue(st.Dt, st.Sh, zero)
				p := par{sh: st.Sh, dt: st.Dt, how: st.How}
				switch st.How {
				case "own":
					p.vg = &own{v, d}
				case "node":
					nm := G.WithName(fmt.Sprintf("p%d", len(ps)))
					if len(st.Sh) == 0 {
						p.vg = G.NewScalar(g, sess.Dtype(st.Dt), nm, G.WithValue(v), G.WithGrad(d))
					} else {
						p.vg = G.NewTensor(g, sess.Dtype(st.Dt), len(st.Sh), G.WithShape(st.Sh...), nm, G.WithValue(v), G.WithGrad(d))
					}
				default:
					drive.Fail("unknown carrier %q", st.How)
				}
				ps = append(ps, p)
				model = append(model, p.vg)
				for i, w := range st.W {
					reg[int64(len(ps)*1000+(i+1)*10+1)] = terms.Num{V: w}
				}
				if st.Dt == "f32" {
					u = terms.U32
				}
			case "poke":
				sess.SetValue(ps[st.K-1].vg.Value(), st.W)
				for i, w := range st.W {
					reg[int64(st.K*1000+(i+1)*10+1)] = terms.Num{V: w}
				}
			case "step":
				for i, p := range ps {
					if o, ok := p.vg.(*own); ok && k%2 == 0 {
						o.g = sess.MakeValue(p.dt, p.sh, st.G[i])
						continue
					}
					d, err := p.vg.Grad()
					if err != nil {
						return fail("Grad of parameter %d: %v", i, err)
					}
					sess.SetValue(d, st.G[i])
				}
				if err := s.Step(model); err != nil {
					return fail("unexpected error: %v", err)
				}
				st.Eta.Resolve(get)
				reg[0] = st.Eta.Eval(u)
				next := map[int64]terms.Num{}
				for i, p := range ps {
					pu := terms.U64
					if p.dt == "f32" {
						pu = terms.U32
					}
					got, sh, err := sess.Flat(p.vg.Value())
					if err != nil {
						return fail("value of parameter %d: %v", i, err)
					}
					if fmt.Sprint(sh) != fmt.Sprint(p.sh) || p.vg.Value().Dtype() != sess.Dtype(p.dt) {
						return fail("parameter %d has become %v %v, was %v %v", i, p.vg.Value().Dtype(), sh, p.dt, p.sh)
					}
					for j, ts := range st.New[i].U {
						for r, t := range ts {
							t.Resolve(get)
							next[int64((i+1)*1000+(j+1)*10+r+1)] = t.Eval(pu)
						}
						st.New[i].P[j].Resolve(get)
						next[int64((i+1)*1000+(j+1)*10+4)] = st.New[i].P[j].Eval(pu)
						x := next[int64((i+1)*1000+(j+1)*10+1)]
						if x.Skip {
							out.Skipped++
							continue
						}
						out.Compared++
						if !terms.Close(x, got[j], pu) {
							return fail("element %d of parameter %d (%s %v) is %v, expected %v (±%.2g)", j, i, p.dt, p.sh, got[j], x.V, x.E)
						}
					}
					d, err := p.vg.Grad()
					if err != nil {
						return fail("Grad of parameter %d after the step: %v", i, err)
					}
					gs, _, err := sess.Flat(d)
					if err != nil {
						return fail("gradient of parameter %d: %v", i, err)
					}
					for j := range gs {
						if gs[j] != 0 {
							return fail("gradient of parameter %d is %v after the step", i, gs)
						}
					}
				}
				for i, x := range next {
					reg[i] = x
				}
			default:
				drive.Fail("unknown step %q", st.A)
			}
		}
		return nil
	})
	return
}

func main() { drive.Main(replay) }
