// replay replays expression sessions.
package main

import (
	"encoding/json"
	"flag"

	"gorgonia.org/gorgonia"

	"verif/drive"
	"verif/sess"
)

func main() {
	flag.BoolVar(&sess.Collide, "collide", false, "give inputs names whose hashes collide")
	stable := flag.Bool("stable", true, "rewrite expressions into numerically stable ones when they are built")
	drive.Main(func(raw []byte) drive.Result {
		if !*stable {
			gorgonia.UseNonStable()
		}
		var tr sess.Trace
		if err := json.Unmarshal(raw, &tr); err != nil {
			return drive.Result{Finding: &drive.Finding{Kind: "harness", Detail: err.Error()}}
		}
		s := sess.New()
		f := s.Run(tr)
		return drive.Result{Finding: f, Steps: len(tr), Compared: s.Compared, Skipped: s.Skipped}
	})
}
