// bfc drives the device memory allocator through histories of requests and
// records what it does.
package main

import (
	"encoding/json"
	"fmt"
	"time"

	cuda "verif/bfc"
	"verif/drive"
)

type req struct {
	A  string `json:"a"`
	N  int64  `json:"n"`
	S  uint64 `json:"s"`
	Al int64  `json:"al"`
}

type ev struct {
	A  string `json:"a"`
	N  int64  `json:"n"`
	At int64  `json:"at"`
	Ok bool   `json:"ok"`
}

type trace struct {
	I    int   `json:"i"`
	Size int64 `json:"size"`
	Ev   []ev  `json:"ev"`
}

func play(rs []req) (tr trace) {
	done := make(chan trace, 1)
	go func() {
		var t trace
		defer func() {
			if p := recover(); p != nil {
				t.Ev = append(t.Ev, ev{A: fmt.Sprintf("panic: %v", p)})
			}
			done <- t
		}()
		var live []uintptr
		var a *cuda.Alloc
		var start uintptr
		for _, r := range rs {
			switch r.A {
			case "reserve":
				a = cuda.New(r.Al)
				start = uintptr(r.S)
				a.Reserve(start, r.N)
				t.Size = r.N
			case "alloc":
				p, err := a.Alloc(r.N)
				if err != nil {
					t.Ev = append(t.Ev, ev{A: "alloc", N: r.N})
					continue
				}
				t.Ev = append(t.Ev, ev{A: "alloc", N: r.N, At: int64(p) - int64(start), Ok: true})
				live = append(live, p)
			case "free":
				if len(live) == 0 {
					continue
				}
				k := int(r.N) % len(live)
				t.Ev = append(t.Ev, ev{A: "free", At: int64(live[k]) - int64(start)})
				a.Free(live[k])
				live = append(live[:k:k], live[k+1:]...)
			case "bogus":
				a.Free(start + uintptr(r.N))
			}
		}
		// give everything back: then the whole memory must be one block again
		for _, p := range live {
			t.Ev = append(t.Ev, ev{A: "free", At: int64(p) - int64(start)})
			a.Free(p)
		}
		n := t.Size / rs[0].Al * rs[0].Al
		p, err := a.Alloc(n)
		t.Ev = append(t.Ev, ev{A: "alloc", N: n, At: int64(p) - int64(start), Ok: err == nil})
		if err == nil {
			a.Free(p)
			t.Ev = append(t.Ev, ev{A: "free", At: int64(p) - int64(start)})
		}
		if got := a.Release(); got != start {
			t.Ev = append(t.Ev, ev{A: "release of another address"})
			return
		}
		// a fresh reservation after a release
		a.Reserve(start, t.Size)
		p, err = a.Alloc(n)
		t.Ev = append(t.Ev, ev{A: "alloc", N: n, At: int64(p) - int64(start), Ok: err == nil})
	}()
	select {
	case tr = <-done:
	case <-time.After(10 * time.Second):
		tr.Ev = []ev{{A: "hang"}}
		tr.Size = rs[0].N
	}
	return
}

func main() {
	drive.Record(func(i int, raw []byte) interface{} {
		var rs []req
		if err := json.Unmarshal(raw, &rs); err != nil {
			drive.Fail("%v", err)
		}
		t := play(rs)
		t.I = i
		return t
	})
}
