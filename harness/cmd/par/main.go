// par replays separate sessions in separate goroutines.
package main

import (
	"encoding/json"
	"fmt"
	"sync"

	"verif/drive"
	"verif/sess"
)

type line struct {
	Marks  [][]int
	Traces []sess.Trace
}

// each session is played by this many goroutines, every one with a graph of its own
const copies = 2

func main() {
	drive.Main(func(raw []byte) drive.Result {
		// replaying resolves terms in place: every copy has its own
		var ls [copies]line
		for i := range ls {
			if err := json.Unmarshal(raw, &ls[i]); err != nil {
				return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
			}
		}
		l := ls[0]
		var r drive.Result
		var ss []*sess.Session
		for i := 0; i < copies*len(l.Traces); i++ {
			ss = append(ss, sess.New())
			r.Steps += len(l.Traces[i/copies])
		}
		found := make([]*drive.Finding, len(ss))
		at := make([]int, len(l.Traces))
		for _, m := range l.Marks {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range ss {
				i := i
				w := i / copies
				if found[i] != nil || m[w] == at[w] {
					continue
				}
				wg.Add(1)
				go func(from, to int) {
					defer wg.Done()
					<-start
					found[i] = ss[i].Part(ls[i%copies].Traces[w], from, to)
				}(at[w], m[w])
			}
			close(start)
			wg.Wait()
			copy(at, m)
		}
		for i, s := range ss {
			s.Close()
			r.Compared += s.Compared
			r.Skipped += s.Skipped
			if found[i] != nil && r.Finding == nil {
				r.Finding = found[i]
				r.Finding.Detail = fmt.Sprintf("worker %d of %d: %s", i, len(ss), r.Finding.Detail)
			}
		}
		return r
	})
}
