// Package terms interprets the scalar terms of the specification in floating
// point, together with a running bound on the rounding error an
// implementation working at unit roundoff u may have accumulated.
package terms

import (
	"encoding/json"
	"fmt"
	"math"
)

// Term is an integer or the application of an elementary function.
type Term struct {
	Op   string
	N    int64
	Args []*Term
	val  Num // of a reference
}

// Resolve gives the references in t, terms ["ref", [k], 1], their values.
func (t *Term) Resolve(get func(k int64) Num) {
	if t.Op == "ref" {
		t.val = get(t.Args[0].N)
		return
	}
	for _, a := range t.Args {
		a.Resolve(get)
	}
}

// UnmarshalJSON reads [n] or ["f", t.., size].
func (t *Term) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		var n int64
		if err2 := json.Unmarshal(b, &n); err2 == nil {
			t.N = n
			return nil
		}
		return err
	}
	if len(raw) == 1 {
		return json.Unmarshal(raw[0], &t.N)
	}
	if err := json.Unmarshal(raw[0], &t.Op); err != nil {
		return err
	}
	for _, r := range raw[1 : len(raw)-1] {
		a := new(Term)
		if err := a.UnmarshalJSON(r); err != nil {
			return err
		}
		t.Args = append(t.Args, a)
	}
	return nil
}

func (t *Term) String() string {
	if t.Op == "" {
		return fmt.Sprint(t.N)
	}
	s := t.Op + "("
	for i, a := range t.Args {
		if i > 0 {
			s += ","
		}
		s += a.String()
	}
	return s + ")"
}

// Num is a value with an absolute error bound. Skip marks values the
// specification leaves open (kinks, ties, out of domain).
type Num struct {
	V, E float64
	Skip bool
}

const (
	// U32 and U64 are the unit roundoffs of the two float types
	U32 = 1.0 / (1 << 24)
	U64 = 1.0 / (1 << 53)
)

var skip = Num{Skip: true}

func bool2(b bool) Num {
	if b {
		return Num{V: 1}
	}
	return Num{}
}

// Eval interprets t. Terms with a part that is too large or too small for the
// float type are left open.
func (t *Term) Eval(u float64) Num {
	n := t.eval(u)
	big, small := 1e120, 1e-120
	if u == U32 {
		big, small = 1e15, 1e-25
	}
	if a := math.Abs(n.V); a > big || (a > 0 && a < small) {
		return skip
	}
	return n
}

func (t *Term) eval(u float64) Num {
	if t.Op == "" {
		v := float64(t.N)
		return Num{V: v}
	}
	if t.Op == "undef" {
		return skip
	}
	if t.Op == "ref" {
		return t.val
	}
	if t.Op == "var" {
		return Num{V: float64(t.Args[0].N)}
	}
	if t.Op == "ite" {
		c := t.Args[0].Eval(u)
		if c.Skip {
			return skip
		}
		if c.V != 0 {
			return t.Args[1].Eval(u)
		}
		return t.Args[2].Eval(u)
	}
	a := t.Args[0].Eval(u)
	if a.Skip {
		return skip
	}
	var b Num
	if len(t.Args) > 1 {
		b = t.Args[1].Eval(u)
		if b.Skip {
			return skip
		}
	}
	slope := func(v, s float64) Num {
		return Num{V: v, E: math.Abs(s)*a.E + 4*u*math.Abs(v) + 4*u*math.Abs(s*a.V)}
	}
	// saturating functions may be cut off where they are flat
	flat := func(n Num) Num {
		if math.Abs(a.V) > 11 {
			n.E += math.Exp(-math.Abs(a.V))
		}
		return n
	}
	switch t.Op {
	case "add":
		v := a.V + b.V
		return Num{V: v, E: a.E + b.E + u*(math.Abs(a.V)+math.Abs(b.V))}
	case "sub":
		v := a.V - b.V
		return Num{V: v, E: a.E + b.E + u*(math.Abs(a.V)+math.Abs(b.V))}
	case "neg":
		return Num{V: -a.V, E: a.E}
	case "mul":
		v := a.V * b.V
		return Num{V: v, E: math.Abs(a.V)*b.E + math.Abs(b.V)*a.E + a.E*b.E + u*math.Abs(v)}
	case "div":
		if math.Abs(b.V) <= 4*b.E || b.V == 0 {
			return skip
		}
		v := a.V / b.V
		return Num{V: v, E: (a.E+math.Abs(v)*b.E)/(math.Abs(b.V)-b.E) + u*math.Abs(v)}
	case "pow":
		v := math.Pow(a.V, b.V)
		if a.V <= 0 && b.V != math.Trunc(b.V) {
			return skip
		}
		if a.V == 0 {
			if b.V <= 0 || a.E > 0 || b.E > 0 {
				return skip
			}
			return Num{V: v}
		}
		l := math.Log(math.Abs(a.V))
		return Num{V: v, E: math.Abs(v)*(math.Abs(b.V)*a.E/math.Abs(a.V)+math.Abs(l)*b.E) + 16*u*math.Abs(v)*(1+math.Abs(b.V*l))}
	case "lt", "gt", "lte", "gte", "eq", "ne":
		d := a.V - b.V
		if (a.E+b.E > 0 || d != 0) && math.Abs(d) <= 16*(a.E+b.E)+64*u*(math.Abs(a.V)+math.Abs(b.V)) {
			return skip // too close to call
		}
		if d == 0 && (t.Args[0].Op != "" || t.Args[1].Op != "") {
			return skip
		}
		switch t.Op {
		case "lt":
			return bool2(d < 0)
		case "gt":
			return bool2(d > 0)
		case "lte":
			return bool2(d <= 0)
		case "gte":
			return bool2(d >= 0)
		case "eq":
			return bool2(d == 0)
		}
		return bool2(d != 0)
	case "min":
		return Num{V: math.Min(a.V, b.V), E: math.Max(a.E, b.E)}
	case "max":
		return Num{V: math.Max(a.V, b.V), E: math.Max(a.E, b.E)}
	case "abs":
		return Num{V: math.Abs(a.V), E: a.E}
	case "sign":
		if t.Args[0].Op == "ref" && a.V == 0 && a.E == 0 {
			return Num{}
		}
		if math.Abs(a.V) <= 16*a.E {
			return skip
		}
		return Num{V: math.Copysign(1, a.V)}
	case "ceil", "floor":
		if math.Abs(a.V-math.Round(a.V)) <= 64*(a.E+u*math.Abs(a.V)) {
			return skip
		}
		if t.Op == "ceil" {
			return Num{V: math.Ceil(a.V)}
		}
		return Num{V: math.Floor(a.V)}
	case "sin", "cos":
		if math.Abs(a.V) > 1e6 { // no agreed accuracy (float32 gives NaN)
			return skip
		}
		if t.Op == "cos" {
			return slope(math.Cos(a.V), 1)
		}
		return slope(math.Sin(a.V), 1)
	case "exp":
		v := math.Exp(a.V)
		return slope(v, v)
	case "expm1":
		return slope(math.Expm1(a.V), math.Exp(a.V))
	case "ln", "log2":
		if a.V <= 4*a.E {
			return skip
		}
		if t.Op == "log2" {
			return slope(math.Log2(a.V), 1.5/a.V)
		}
		return slope(math.Log(a.V), 1/a.V)
	case "log1p":
		if a.V <= -1+4*a.E {
			return skip
		}
		return slope(math.Log1p(a.V), 1/(1+a.V))
	case "sqrt":
		if a.V < 0 || (a.V == 0 && a.E > 0) {
			return skip
		}
		if a.V == 0 {
			return Num{}
		}
		v := math.Sqrt(a.V)
		return slope(v, 0.5/v)
	case "tanh":
		v := math.Tanh(a.V)
		return flat(slope(v, 1-v*v))
	case "sigmoid":
		v := 1 / (1 + math.Exp(-a.V))
		return flat(slope(v, 1))
	case "softplus":
		v := math.Log1p(math.Exp(-math.Abs(a.V))) + math.Max(a.V, 0)
		return flat(slope(v, 1))
	}
	return skip
}

// Close says whether got is an acceptable approximation of n.
func Close(n Num, got, u float64) bool {
	if n.Skip {
		return true
	}
	if math.IsNaN(n.V) || math.IsInf(n.V, 0) || math.IsInf(n.E, 0) || math.IsNaN(n.E) || math.Abs(n.V) > 1e30 {
		return true // outside the compared range
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return n.E > 0.01*math.Abs(n.V)+1e-3
	}
	tol := 256*n.E + 64*u*math.Abs(n.V)
	if tol > 0.05*math.Abs(n.V)+1e-3 && n.E > 1e-3 {
		return true // ill conditioned: no verdict
	}
	return math.Abs(got-n.V) <= tol+64*u
}
