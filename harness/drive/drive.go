// Package drive is the common main program of the replayers: it reads
// behaviours (one JSON array of steps per line) and hands each to a replayer.
//
// For every disagreement it prints one line {"i":..,"finding":{..}}; the last
// line is {"done":true,...} with counts.  Exit codes: 0 all behaviours were
// replayed, 3 the harness could not do its work, 4 a behaviour did not come
// to an end (reported as a finding of kind "hang").
package drive

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Finding is a disagreement between library and specification
type Finding struct {
	Kind   string `json:"kind"`
	Step   int    `json:"step"`
	Detail string `json:"detail"`
}

func (f *Finding) Error() string { return fmt.Sprintf("[%s] step %d: %s", f.Kind, f.Step, f.Detail) }

// Result of replaying one behaviour
type Result struct {
	Finding           *Finding
	Steps             int
	Compared, Skipped int
}

// HarnessError is panicked with when the harness itself is at fault
type HarnessError struct{ Msg string }

// Fail gives up: the harness cannot do its work
func Fail(f string, a ...interface{}) { panic(HarnessError{fmt.Sprintf(f, a...)}) }

// Judge is the set of finding kinds that count; empty means all
var Judge = map[string]bool{}

// Judged tells whether findings of this kind count
func Judged(kind string) bool { return len(Judge) == 0 || Judge[kind] }

// Trim keeps the interesting lines of a stack trace
func Trim(st string) string {
	var out []string
	for _, x := range strings.Split(st, "\n") {
		if strings.Contains(x, "/repo/") || strings.Contains(x, "tensor@") {
			out = append(out, strings.TrimSpace(x))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Guard runs f and turns a panic of the library into a finding
func Guard(step *int, f func() *Finding) (r *Finding) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, "harness:", h.Msg)
				os.Exit(3)
			}
			r = &Finding{Kind: "panic", Step: *step, Detail: fmt.Sprintf("%v\n%s", p, Trim(string(debug.Stack())))}
		}
	}()
	return f()
}

// Main replays the behaviours named on the command line
func Main(replay func(raw []byte) Result) {
	in := flag.String("in", "", "behaviours")
	start := flag.Int("start", 0, "first index")
	stride := flag.Int("stride", 1, "stride")
	progress := flag.String("progress", "", "file that names the behaviour in progress")
	timeout := flag.Int("timeout", 30, "seconds per behaviour")
	max := flag.Int("max", 20, "stop after this many findings")
	judge := flag.String("judge", "", "comma separated finding kinds that count")
	flag.Parse()
	for _, k := range strings.Split(*judge, ",") {
		if k != "" {
			Judge[k] = true
		}
	}
	log.SetOutput(ioutil.Discard)
	fh, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var pf *os.File
	if *progress != "" {
		if pf, err = os.Create(*progress); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var n, steps, cmp, skipped, found int
	for i := 0; sc.Scan(); i++ {
		if i < *start || (i-*start)%*stride != 0 || len(sc.Bytes()) == 0 {
			continue
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-12s", strconv.Itoa(i))), 0)
		}
		raw := append([]byte(nil), sc.Bytes()...)
		ch := make(chan Result, 1)
		go func() { ch <- replay(raw) }()
		var r Result
		select {
		case r = <-ch:
		case <-time.After(time.Duration(*timeout) * time.Second):
			report(i, &Finding{Kind: "hang", Detail: fmt.Sprintf("no answer within %d s", *timeout)})
			os.Exit(4)
		}
		n++
		steps += r.Steps
		cmp += r.Compared
		skipped += r.Skipped
		if r.Finding != nil && r.Finding.Kind == "harness" {
			fmt.Fprintf(os.Stderr, "behaviour %d: %s\n", i, r.Finding.Detail)
			os.Exit(3)
		}
		if r.Finding != nil && Judged(r.Finding.Kind) {
			report(i, r.Finding)
			found++
			if found >= *max {
				break
			}
		}
	}
	if err := sc.Err(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	b, _ := json.Marshal(map[string]interface{}{"done": true, "behaviours": n, "steps": steps, "compared": cmp, "skipped": skipped, "findings": found})
	fmt.Println(string(b))
}

func report(i int, f *Finding) {
	b, _ := json.Marshal(map[string]interface{}{"i": i, "finding": f})
	fmt.Println(string(b))
}

// Record runs every behaviour and writes what was recorded, one JSON value per line
func Record(play func(i int, raw []byte) interface{}) {
	in := flag.String("in", "", "behaviours")
	out := flag.String("out", "", "recorded executions")
	flag.Parse()
	log.SetOutput(ioutil.Discard)
	fh, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	of, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := bufio.NewWriter(of)
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for i := 0; sc.Scan(); i++ {
		b, err := json.Marshal(play(i, append([]byte(nil), sc.Bytes()...)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	of.Close()
}
