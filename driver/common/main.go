// Command zzverif replays behaviours generated from the specification in the
// real code.  It is compiled into the module through an overlay.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

type M = map[string]interface{}
type L = []interface{}

type harness string // a defect of the machinery, never of the code

type finding struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
}

func f(msg string, props ...string) finding { return finding{props, msg} }

type mode func(v M) []finding

var modes = map[string]mode{}

type result struct {
	I        int             `json:"i"`
	Mode     string          `json:"mode"`
	Findings []finding       `json:"findings"`
	Vec      json.RawMessage `json:"vec"`
}

var stats sync.Map // name -> *int64, for the evidence

func count(name string) {
	p, ok := stats.Load(name)
	if !ok {
		p, _ = stats.LoadOrStore(name, new(int64))
	}
	atomic.AddInt64(p.(*int64), 1)
}

var (
	timeout  = flag.Duration("timeout", 20*time.Second, "limit for one vector")
	workers  = flag.Int("workers", runtime.NumCPU(), "vectors at a time")
	journal  = flag.String("journal", "", "file naming the vector being run (single worker)")
	skip     = flag.Int("skip", 0, "vectors to skip")
	maxBad   = flag.Int("maxbad", 200, "stop after this many contradictions")
	harnessE int64
)

func main() {
	debug.SetMaxStack(512 << 20)
	flag.Parse()
	if flag.NArg() < 3 {
		fmt.Fprintln(os.Stderr, "usage: zzverif [flags] MODE VECTORS RESULTS")
		os.Exit(7)
	}
	m, ok := modes[flag.Arg(0)]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", flag.Arg(0))
		os.Exit(7)
	}
	in, err := os.Open(flag.Arg(1))
	check(err)
	out, err := os.Create(flag.Arg(2))
	check(err)
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	var mu sync.Mutex
	type job struct {
		i   int
		raw []byte
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	var n, bad, skipped int64
	for k := 0; k < *workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if atomic.LoadInt64(&bad) >= int64(*maxBad) {
					atomic.AddInt64(&skipped, 1)
					continue
				}
				if *journal != "" {
					os.WriteFile(*journal, []byte(fmt.Sprint(j.i)), 0644)
				}
				v := M{}
				if err := json.Unmarshal(j.raw, &v); err != nil {
					check(fmt.Errorf("vector %d: %v", j.i, err))
				}
				fs := runOne(m, v)
				atomic.AddInt64(&n, 1)
				if len(fs) > 0 {
					atomic.AddInt64(&bad, 1)
					mu.Lock()
					check(enc.Encode(result{j.i, flag.Arg(0), fs, j.raw}))
					w.Flush()
					mu.Unlock()
				}
			}
		}()
	}
	seen := map[string]bool{}
	dups := 0
	r := bufio.NewReaderSize(in, 1<<20)
	i := 0
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			if line[0] == '"' { // written by CSVWrite: a quoted string holding JSON
				var s string
				if err := json.Unmarshal(line, &s); err != nil {
					check(fmt.Errorf("vector %d: %v", i, err))
				}
				line = []byte(s)
			}
			if seen[string(line)] {
				dups++
			} else {
				seen[string(line)] = true
				if i >= *skip {
					jobs <- job{i, line}
				}
				i++
			}
		}
		if err != nil {
			break
		}
	}
	close(jobs)
	wg.Wait()
	st := map[string]int64{}
	stats.Range(func(k, v interface{}) bool { st[k.(string)] = atomic.LoadInt64(v.(*int64)); return true })
	check(enc.Encode(map[string]interface{}{"summary": true, "vectors": n, "duplicates": dups, "bad": bad, "notrun": skipped, "stats": st}))
	check(w.Flush())
	check(out.Close())
	if harnessE > 0 {
		os.Exit(7)
	}
	// goroutines that never returned do not keep the process alive
}

func runOne(m mode, v M) []finding {
	done := make(chan []finding, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(harness); ok {
					fmt.Fprintln(os.Stderr, "HARNESS:", h)
					atomic.AddInt64(&harnessE, 1)
					done <- nil
					return
				}
				done <- []finding{f(fmt.Sprintf("panic: %v\n%s", p, debug.Stack()), "P11", "*")}
			}
		}()
		done <- m(v)
	}()
	t := time.NewTimer(*timeout)
	defer t.Stop()
	select {
	case fs := <-done:
		return fs
	case <-t.C:
		return []finding{f(fmt.Sprintf("no answer within %v", *timeout), "P11", "*")}
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "zzverif:", err)
		os.Exit(7)
	}
}
