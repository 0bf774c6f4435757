// Package core is the small framework shared by all checks: bounded exhaustive
// exploration of a finite sequence of cases with confirmation of failures,
// counters for the evidence file and replay of single cases.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"iter"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is a confirmed failure of a property on one explored case.
type Violation struct {
	Space  string          `json:"space"`
	Key    string          `json:"key"`
	Msg    string          `json:"msg"`
	Replay json.RawMessage `json:"case"`
}

// Result is what a part writes for the runner.
type Result struct {
	Part        string         `json:"part"`
	Violations  []Violation    `json:"violations"`
	Errors      []string       `json:"errors"`
	Exhaustive  bool           `json:"exhaustive"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
}

type Ctx struct {
	Prop     string
	Tier     string
	Scratch  string
	Bin      string
	Verif    string
	Repo     string
	Workers  int
	Deadline time.Time
	// CaseLimit is the longest time of a case in a part that calls the code under test in its own process.
	CaseLimit time.Duration
	// Track is a directory where workers record the case they run, to find the one that crashes the process.
	Track string
	// replay
	ReplaySpace string
	ReplayCase  json.RawMessage

	begin    time.Time
	mu       sync.Mutex
	res      Result
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []any
	spaces   []map[string]any
	rules    []string
	stop     atomic.Bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns the quick or the thorough bound.
func Pick[T any](c *Ctx, quick, thorough T) T {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Distinct records a canonical form of a non-trivial case or observation.
func (c *Ctx) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	v := h.Sum64()
	c.mu.Lock()
	c.distinct[v] = struct{}{}
	c.mu.Unlock()
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// SetCount replaces a counter.
func (c *Ctx) SetCount(name string, n int) {
	c.mu.Lock()
	c.counts[name] = int64(n)
	c.mu.Unlock()
}

// Partial records that the bounds were not exhausted.
func (c *Ctx) Partial() { c.mu.Lock(); c.res.Exhaustive = false; c.mu.Unlock() }

// Stopped tells that the time is over or enough violations were found.
func (c *Ctx) Stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return time.Now().After(c.Deadline) || len(c.res.Violations) >= 3
}

func (c *Ctx) Rule(s string) { c.mu.Lock(); c.rules = append(c.rules, s); c.mu.Unlock() }

func (c *Ctx) Assume(s string) {
	c.mu.Lock()
	c.res.Assumptions = append(c.res.Assumptions, s)
	c.mu.Unlock()
}

func (c *Ctx) Error(format string, a ...any) {
	c.mu.Lock()
	c.res.Errors = append(c.res.Errors, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *Ctx) AddViolation(v Violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, o := range c.res.Violations {
		if o.Key == v.Key {
			return
		}
	}
	if len(c.res.Violations) < 40 {
		c.res.Violations = append(c.res.Violations, v)
	}
}

// Out is the outcome of one case.
type Out struct {
	Viol string // description of the violation, empty if the property held
	Key  string // stable identification of the violation, used for known findings
	Err  error  // the harness itself failed, nothing is known about the property
	Min  any    // optional smaller case of the same type that should show the violation
}

func Bad(key, format string, a ...any) Out {
	return Out{Key: key, Viol: fmt.Sprintf(format, a...)}
}

// Explore runs every case of the sequence. A failing case is run again and is
// reported only if the failure is repeated.
func Explore[C any](c *Ctx, space, bounds string, cases iter.Seq[C], run func(w *Worker, x C) Out) {
	if c.ReplayCase != nil {
		if c.ReplaySpace != space {
			return
		}
		var x C
		if err := json.Unmarshal(c.ReplayCase, &x); err != nil {
			c.Error("%s: bad replay case: %v", space, err)
			return
		}
		w := c.worker(0)
		if c.CaseLimit > 0 {
			w.cur.Store(&running{time.Now(), x})
			go c.watch(space, []*Worker{w}, make(chan struct{}))
		}
		o := func() (o Out) {
			defer func() {
				if p := recover(); p != nil {
					o = panicOut(p, debug.Stack())
				}
			}()
			return run(w, x)
		}()
		fmt.Printf("replay %s: violation=%q err=%v\n", space, o.Viol, o.Err)
		if o.Viol != "" {
			c.AddViolation(Violation{space, o.Key, o.Viol, c.ReplayCase})
		}
		return
	}
	start := time.Now()
	c.mu.Lock()
	skip := len(c.res.Violations) > 0 && c.Prop != "C22" && time.Since(c.begin) > 100*time.Second
	if skip {
		c.res.Exhaustive = false
	}
	c.mu.Unlock()
	if skip {
		fmt.Printf("%s/%s: skipped after a violation\n", c.Prop, space)
		return
	}
	ch := make(chan C, 64)
	var wg sync.WaitGroup
	var n, errs atomic.Int64
	complete := true
	found := atomic.Int64{}
	safe := func(w *Worker, x C) (o Out) {
		defer func() {
			if p := recover(); p != nil {
				o = panicOut(p, debug.Stack())
			}
		}()
		if c.Track != "" {
			js, _ := json.Marshal(x)
			rec, _ := json.Marshal(Violation{Space: space, Replay: js})
			os.WriteFile(fmt.Sprintf("%s/w%d", c.Track, w.ID), rec, 0644)
		}
		if c.CaseLimit > 0 {
			cur := any(x)
			w.cur.Store(&running{time.Now(), cur})
			defer w.cur.Store(nil)
		}
		return run(w, x)
	}
	var ws []*Worker
	for i := 0; i < c.Workers; i++ {
		ws = append(ws, c.worker(i))
	}
	if c.CaseLimit > 0 {
		finished := make(chan struct{})
		defer close(finished)
		go c.watch(space, ws, finished)
	}
	for i := 0; i < c.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := ws[i]
			for x := range ch {
				if found.Load() >= 6 {
					continue
				}
				o := safe(w, x)
				for try := 0; o.Err != nil && try < 3; try++ {
					time.Sleep(50 * time.Millisecond)
					o = safe(w, x)
				}
				n.Add(1)
				if o.Err != nil {
					if errs.Add(1) <= 5 {
						js, _ := json.Marshal(x)
						c.Error("%s: %v: case %.600s", space, o.Err, js)
					}
					continue
				}
				if o.Viol == "" {
					continue
				}
				y, last := x, o
				if m, ok := o.Min.(C); ok {
					if o2 := safe(w, m); o2.Viol != "" {
						y, last = m, o2
					}
				}
				again := 0
				for try := 0; try < 4; try++ {
					if o2 := safe(w, y); o2.Viol != "" {
						again++
						last = o2
						break
					}
				}
				js, _ := json.Marshal(y)
				if again == 0 {
					c.Count("unconfirmed", 1)
					fmt.Printf("unconfirmed failure in %s (not repeated in 4 runs): %s: %.2000s\n", space, o.Viol, js)
					continue
				}
				found.Add(1)
				c.AddViolation(Violation{space, last.Key, last.Viol + " [repeated]", js})
			}
		}(i)
	}
	for x := range cases {
		if time.Now().After(c.Deadline) {
			complete = false
			break
		}
		if found.Load() >= 6 {
			complete = false
			break
		}
		ch <- x
	}
	close(ch)
	wg.Wait()
	c.mu.Lock()
	defer c.mu.Unlock()
	if !complete {
		c.res.Exhaustive = false
	}
	c.spaces = append(c.spaces, map[string]any{"space": space, "bounds": bounds, "cases": n.Load(), "complete": complete,
		"seconds": float64(int(time.Since(start).Seconds()*10)) / 10})
	fmt.Printf("%s/%s: %d cases complete=%v %.1fs\n", c.Prop, space, n.Load(), complete, time.Since(start).Seconds())
}

// Worker owns a scratch directory.
type Worker struct {
	C   *Ctx
	ID  int
	Dir string
	seq int
	cur atomic.Pointer[running]
}

type running struct {
	since time.Time
	x     any
}

// StuckStatus is the exit status of a part that has met a case that does not end.
const StuckStatus = 97

func (c *Ctx) watch(space string, ws []*Worker, finished chan struct{}) {
	for {
		select {
		case <-finished:
			return
		case <-time.After(2 * time.Second):
		}
		for _, w := range ws {
			if r := w.cur.Load(); r != nil && time.Since(r.since) > c.CaseLimit {
				js, _ := json.Marshal(r.x)
				rec, _ := json.Marshal(Violation{Space: space, Replay: js})
				os.WriteFile(filepath.Join(c.Scratch, "stuck"), rec, 0644)
				fmt.Printf("%s/%s: a case does not end in %v: %.500s\n", c.Prop, space, c.CaseLimit, js)
				os.Exit(StuckStatus)
			}
		}
	}
}

// panicOut tells a panic of the code under test from one of the harness.
func panicOut(p any, stack []byte) Out {
	for _, l := range strings.Split(string(stack), "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/maxnikulin/burl/"):
			return Out{Viol: fmt.Sprintf("panic: %v: %.1500s", p, stack), Key: "panic:" + ShortHash(fmt.Sprint(p))}
		case strings.HasPrefix(l, "main."):
			// the harness is closer to the place
			return Out{Err: fmt.Errorf("harness panic: %v\n%s", p, stack)}
		}
	}
	return Out{Err: fmt.Errorf("harness panic: %v\n%s", p, stack)}
}

func (c *Ctx) worker(i int) *Worker {
	d := filepath.Join(c.Scratch, fmt.Sprintf("w%d", i))
	os.MkdirAll(d, 0755)
	return &Worker{C: c, ID: i, Dir: d}
}

// Fresh creates a new empty subdirectory; the caller removes it.
func (w *Worker) Fresh() string {
	w.seq++
	d := filepath.Join(w.Dir, fmt.Sprintf("c%d", w.seq))
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Main is the entry point of a part binary.
func Main(part string, checks map[string]func(*Ctx)) {
	c := &Ctx{counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	var out, replay string
	var seconds int
	flag.StringVar(&c.Prop, "prop", "", "")
	flag.StringVar(&c.Tier, "tier", "quick", "")
	flag.StringVar(&c.Scratch, "scratch", "", "")
	flag.StringVar(&c.Bin, "bin", "", "")
	flag.StringVar(&c.Verif, "verif", "/verif", "")
	flag.StringVar(&c.Repo, "repo", "/repo", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&replay, "replay", "", "")
	flag.StringVar(&c.Track, "track", "", "")
	flag.IntVar(&seconds, "seconds", 600, "")
	flag.IntVar(&c.Workers, "workers", runtime.NumCPU(), "")
	flag.Parse()
	c.begin = time.Now()
	c.Deadline = c.begin.Add(time.Duration(seconds) * time.Second)
	c.res = Result{Part: part, Exhaustive: true}
	if strings.HasPrefix(part, "lib") {
		c.CaseLimit = 90 * time.Second
	}
	f := checks[c.Prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		os.Exit(2)
	}
	if replay != "" {
		data, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(data, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.ReplaySpace, c.ReplayCase = v.Space, v.Replay
		c.Workers = 1
	}
	f(c)
	cov := map[string]any{}
	keys := make([]string, 0)
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		cov[k] = c.counts[k]
	}
	cov["distinct_nontrivial"] = len(c.distinct)
	cov["samples"] = c.samples
	cov["spaces"] = c.spaces
	cov["rules"] = c.rules
	c.res.Coverage = cov
	data, err := json.MarshalIndent(c.res, "", " ")
	if err == nil {
		err = os.WriteFile(out, data, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
