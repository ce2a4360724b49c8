// blase replays histories of queued matrix calls.
package main

import (
	"encoding/json"
	"flag"
	"fmt"

	"gonum.org/v1/gonum/blas"
	"gorgonia.org/gorgonia/blase"
	"verif/drive"
)

type mat struct {
	R int       `json:"r"`
	C int       `json:"c"`
	V []float64 `json:"v"`
}

type step struct {
	A  string  `json:"a"`
	M  []mat   `json:"m"`
	X  int     `json:"x"`
	Y  int     `json:"y"`
	Z  int     `json:"z"`
	TX bool    `json:"tx"`
	TY bool    `json:"ty"`
	Al float64 `json:"al"`
	Be float64 `json:"be"`
}

func tr(b bool) blas.Transpose {
	if b {
		return blas.Trans
	}
	return blas.NoTrans
}

// store is a matrix in memory: rows lie ld apart, which is more than they are
// long for every other matrix (for a vector this is the increment)
type store struct {
	mat
	ld  int
	mem []float64
}

const filler = 77

func keep(i int, m mat) *store {
	s := &store{mat: m, ld: m.C + i%2}
	s.mem = make([]float64, s.ld*m.R)
	for k := range s.mem {
		s.mem[k] = filler
	}
	for r := 0; r < m.R; r++ {
		copy(s.mem[r*s.ld:], m.V[r*m.C:(r+1)*m.C])
	}
	return s
}

func (s *store) is(want []float64) bool {
	for r := 0; r < s.R; r++ {
		for c := 0; c < s.ld; c++ {
			w := float64(filler)
			if c < s.C {
				w = want[r*s.C+c]
			}
			if s.mem[r*s.ld+c] != w {
				return false
			}
		}
	}
	return true
}

var worker = flag.Bool("worker", false, "flush from another goroutine, as announced by WorkAvailable")

func replay(raw []byte) (res drive.Result) {
	var t []step
	if err := json.Unmarshal(raw, &t); err != nil {
		return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
	}
	res.Steps = len(t)
	k := 0
	res.Finding = drive.Guard(&k, func() *drive.Finding {
		b := blase.Implementation()
		b.DoWork()
		stop, stopped := make(chan bool), make(chan bool)
		start := func() {}
		halt := func() { b.DoWork() }
		if *worker {
			start = func() {
				go func() {
					for {
						select {
						case <-b.WorkAvailable():
							b.DoWork()
						case <-stop:
							stopped <- true
							return
						}
					}
				}()
			}
			halt = func() {
				stop <- true
				<-stopped
				b.DoWork()
			}
		}
		start()
		var ms []*store
		for k = range t {
			s := t[k]
			switch s.A {
			case "init":
				for i, m := range s.M {
					ms = append(ms, keep(i, m))
				}
			case "gemm":
				x, y, z := ms[s.X-1], ms[s.Y-1], ms[s.Z-1]
				kk := x.C
				if s.TX {
					kk = x.R
				}
				b.Dgemm(tr(s.TX), tr(s.TY), z.R, z.C, kk, s.Al, x.mem, x.ld, y.mem, y.ld, s.Be, z.mem, z.ld)
			case "gemv":
				x, y, z := ms[s.X-1], ms[s.Y-1], ms[s.Z-1]
				b.Dgemv(tr(s.TX), x.R, x.C, s.Al, x.mem, x.ld, y.mem, y.ld, s.Be, z.mem, z.ld)
			case "flush":
				halt()
				for i := range ms {
					res.Compared++
					if !ms[i].is(s.M[i].V) {
						return &drive.Finding{Kind: "blas", Step: k, Detail: fmt.Sprintf("after the flush matrix %d is %v, expected %v", i+1, ms[i].mem, s.M[i].V)}
					}
				}
				if k < len(t)-1 {
					start()
				}
			}
		}
		return nil
	})
	return
}

func main() { drive.Main(replay) }
