package sess

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/terms"
)

// Flat returns the elements of v in row-major order, and its shape.
func Flat(v G.Value) ([]float64, []int, error) {
	if v == nil {
		return nil, nil, fmt.Errorf("nil value")
	}
	if t, ok := v.(tensor.Tensor); ok {
		shp := t.Shape()
		if shp.IsScalar() {
			x, err := num(t.Data())
			if err != nil {
				return nil, nil, err
			}
			return []float64{x}, nil, nil
		}
		n := shp.TotalSize()
		out := make([]float64, 0, n)
		ix := make([]int, len(shp))
		for k := 0; k < n; k++ {
			r := k
			for i := len(shp) - 1; i >= 0; i-- {
				ix[i] = r % shp[i]
				r /= shp[i]
			}
			e, err := t.At(ix...)
			if err != nil {
				return nil, nil, err
			}
			x, err := num(e)
			if err != nil {
				return nil, nil, err
			}
			out = append(out, x)
		}
		return out, append([]int{}, shp...), nil
	}
	x, err := num(v.Data())
	if err != nil {
		return nil, nil, err
	}
	return []float64{x}, nil, nil
}

func num(e interface{}) (float64, error) {
	switch x := e.(type) {
	case float64:
		return x, nil
	case float32:
		return float64(x), nil
	case int:
		return float64(x), nil
	case int64:
		return float64(x), nil
	case int32:
		return float64(x), nil
	case byte:
		return float64(x), nil
	case bool:
		if x {
			return 1, nil
		}
		return 0, nil
	case []float64:
		if len(x) == 1 {
			return x[0], nil
		}
	case []float32:
		if len(x) == 1 {
			return float64(x[0]), nil
		}
	case []bool:
		if len(x) == 1 {
			return num(x[0])
		}
	case []int:
		if len(x) == 1 {
			return float64(x[0]), nil
		}
	}
	return 0, fmt.Errorf("cannot read a number out of %T", e)
}

func unit(dt string) float64 {
	if dt == "f32" || dt == "bool" { // the operands of a comparison may be either
		return terms.U32
	}
	return terms.U64
}

// Dtype translates the specification's dtype names
func Dtype(dt string) tensor.Dtype {
	switch dt {
	case "f32":
		return tensor.Float32
	case "f64":
		return tensor.Float64
	case "bool":
		return tensor.Bool
	case "int":
		return tensor.Int
	case "i64":
		return tensor.Int64
	case "i32":
		return tensor.Int32
	}
	panic("dtype " + dt)
}

// MakeValue builds a fresh value of the shape
func MakeValue(dt string, sh []int, v []float64) G.Value {
	if len(sh) == 0 {
		switch dt {
		case "f32":
			x := G.F32(v[0])
			return &x
		case "int":
			x := G.I(int(v[0]))
			return &x
		case "i64":
			x := G.I64(int64(v[0]))
			return &x
		case "i32":
			x := G.I32(int32(v[0]))
			return &x
		}
		x := G.F64(v[0])
		return &x
	}
	return MakeTensor(dt, sh, v)
}

// MakeTensor builds a fresh dense tensor
func MakeTensor(dt string, sh []int, v []float64) *tensor.Dense {
	switch dt {
	case "f32":
		b := make([]float32, len(v))
		for i := range v {
			b[i] = float32(v[i])
		}
		return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
	case "i64":
		b := make([]int64, len(v))
		for i := range v {
			b[i] = int64(v[i])
		}
		return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
	case "i32":
		b := make([]int32, len(v))
		for i := range v {
			b[i] = int32(v[i])
		}
		return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
	case "int":
		b := make([]int, len(v))
		for i := range v {
			b[i] = int(v[i])
		}
		return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
	}
	b := append([]float64{}, v...)
	return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
}

func sameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
