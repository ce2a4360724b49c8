// Package vals makes values from descriptions and compares them.
package vals

import (
	"fmt"
	"reflect"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
	"verif/drive"
)

// Desc describes a value: "prim" or "tens", element type, shape and content
type Desc struct {
	K  string `json:"k"`
	Dt string `json:"dt"`
	Sh []int  `json:"sh"`
	X  []int  `json:"x"`
}

// Dtypes by short name
var Dtypes = map[string]tensor.Dtype{"f64": tensor.Float64, "f32": tensor.Float32, "int": tensor.Int, "i64": tensor.Int64, "i32": tensor.Int32, "u8": tensor.Uint8, "bool": tensor.Bool}

// Conv converts an integer to a Go scalar of the type
func Conv(dt string, x int) interface{} {
	switch dt {
	case "f64":
		return float64(x)
	case "f32":
		return float32(x)
	case "int":
		return x
	case "i64":
		return int64(x)
	case "i32":
		return int32(x)
	case "u8":
		return uint8(x)
	}
	return x != 0
}

// Make makes the value
func Make(d Desc) G.Value {
	if d.K == "prim" {
		switch d.Dt {
		case "f64":
			return G.NewF64(float64(d.X[0]))
		case "f32":
			return G.NewF32(float32(d.X[0]))
		case "int":
			return G.NewI(d.X[0])
		case "i64":
			return G.NewI64(int64(d.X[0]))
		case "i32":
			return G.NewI32(int32(d.X[0]))
		case "u8":
			return G.NewU8(byte(d.X[0]))
		}
		return G.NewB(d.X[0] != 0)
	}
	if len(d.Sh) == 0 {
		return tensor.New(tensor.FromScalar(Conv(d.Dt, d.X[0])))
	}
	b := reflect.MakeSlice(reflect.SliceOf(Dtypes[d.Dt].Type), len(d.X), len(d.X))
	for i, x := range d.X {
		b.Index(i).Set(reflect.ValueOf(Conv(d.Dt, x)))
	}
	return tensor.New(tensor.WithShape(d.Sh...), tensor.WithBacking(b.Interface()))
}

func num(x interface{}) int {
	switch a := x.(type) {
	case float64:
		return int(a)
	case float32:
		return int(a)
	case int:
		return a
	case int64:
		return int(a)
	case int32:
		return int(a)
	case uint8:
		return int(a)
	case bool:
		if a {
			return 1
		}
		return 0
	}
	drive.Fail("element %T", x)
	return 0
}

// Differs tells how v differs from its description
func Differs(v G.Value, d Desc) string {
	_, isT := v.(tensor.Tensor)
	switch {
	case v == nil:
		return "is nil"
	case isT != (d.K == "tens"):
		return fmt.Sprintf("is a %T", v)
	case v.Dtype() != Dtypes[d.Dt]:
		return fmt.Sprintf("has type %v, expected %v", v.Dtype(), d.Dt)
	case len(v.Shape()) != len(d.Sh):
		return fmt.Sprintf("has shape %v, expected %v", v.Shape(), d.Sh)
	}
	for i := range d.Sh {
		if v.Shape()[i] != d.Sh[i] {
			return fmt.Sprintf("has shape %v, expected %v", v.Shape(), d.Sh)
		}
	}
	var got []int
	if rv := reflect.ValueOf(v.Data()); rv.Kind() == reflect.Slice {
		for i := 0; i < rv.Len(); i++ {
			got = append(got, num(rv.Index(i).Interface()))
		}
	} else {
		got = []int{num(v.Data())}
	}
	if fmt.Sprint(got) != fmt.Sprint(d.X) {
		return fmt.Sprintf("holds %v, expected %v", got, d.X)
	}
	return ""
}
