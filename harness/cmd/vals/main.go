// vals replays histories of operations on values.
package main

import (
	"encoding/json"
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
	"verif/vals"
)

type step struct {
	A    string      `json:"a"`
	R    int         `json:"r"`
	D    int         `json:"d"`
	Ok   bool        `json:"ok"`
	I    int         `json:"i"`
	X    int         `json:"x"`
	Regs []vals.Desc `json:"regs"`
}

// put writes one element in place
func put(v G.Value, dt string, i, x int) error {
	switch t := v.(type) {
	case *G.F64:
		*t = G.F64(x)
	case *G.F32:
		*t = G.F32(x)
	case *G.I:
		*t = G.I(x)
	case *G.I64:
		*t = G.I64(x)
	case *G.I32:
		*t = G.I32(x)
	case *G.U8:
		*t = G.U8(x)
	case *G.B:
		*t = G.B(x != 0)
	case *tensor.Dense:
		t.Set(i, vals.Conv(dt, x))
	default:
		return fmt.Errorf("unexpected %T", v)
	}
	return nil
}

func replay(raw []byte) (res drive.Result) {
	var tr []step
	if err := json.Unmarshal(raw, &tr); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	res.Steps = len(tr)
	k := 0
	res.Finding = drive.Guard(&k, func() *drive.Finding {
		R := make([]G.Value, 9)
		for k = range tr {
			st := tr[k]
			var before []vals.Desc
			if k > 0 {
				before = tr[k-1].Regs
			}
			fail := func(f string, a ...interface{}) *drive.Finding {
				return &drive.Finding{Kind: "vals", Step: k, Detail: fmt.Sprintf("%s(r%d, r%d) on %v: ", st.A, st.R, st.D, before) + fmt.Sprintf(f, a...)}
			}
			r, d := st.R, st.D
			switch st.A {
			case "new":
				R[r] = vals.Make(st.Regs[r-1])
			case "clone":
				v, err := G.CloneValue(R[r])
				if err != nil {
					return fail("%v", err)
				}
				R[d] = v
			case "copy":
				v, err := G.Copy(R[d], R[r])
				if st.Ok && err != nil {
					return fail("refused: %v", err)
				}
				if !st.Ok && err == nil {
					return fail("not refused")
				}
				if st.Ok && v != R[d] {
					return fail("the result is not the destination")
				}
			case "zero":
				if z := G.ZeroValue(R[r]); !G.ValueEq(z, R[r]) {
					return fail("the result is %v, the value %v", z, R[r])
				}
			case "eq":
				if b := G.ValueEq(R[r], R[d]); b != st.Ok {
					return fail("returned %v", b)
				}
			case "close":
				if b := G.ValueClose(R[r], R[d]); b != st.Ok {
					return fail("returned %v", b)
				}
			case "write":
				if err := put(R[r], before[r-1].Dt, st.I, st.X); err != nil {
					return fail("%v", err)
				}
			case "row":
				v, err := R[r].(*tensor.Dense).Slice(G.S(st.I))
				if err != nil {
					drive.Fail("slice: %v", err)
				}
				R[d] = v.(*tensor.Dense)
			default:
				drive.Fail("unknown step %q", st.A)
			}
			for j, e := range st.Regs {
				if e.K == "none" {
					continue
				}
				res.Compared++
				if m := vals.Differs(R[j+1], e); m != "" {
					return fail("r%d %s", j+1, m)
				}
			}
		}
		return nil
	})
	return
}

func main() { drive.Main(replay) }
