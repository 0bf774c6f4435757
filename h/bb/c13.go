package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/drv"
)

// burstCase is N editor requests which follow a repeated pattern.
type burstCase struct {
	N    int
	Word []string // "capture" or "visit" with outcomes of its own delivery
	Plan string   // outcome of other runs of the editor
	Args int      // extra arguments
	Lock bool     // one by one
}

func c13(c *core.Ctx) {
	c.Rule("bursts and sequences of editor requests with outcomes of every editor run; non-trivial: distinct (number, pattern, outcomes, extra arguments)")
	kinds := []string{"capture", "visit", "capture/out=1", "visit/out=1", "capture/out=9", "visit/out=9", "capture/out=k", "visit/out=k", "other", "capture/out=r", "visit/out=r"}
	plans := []string{"o", "n", "1", "9", "k"}
	ns := core.Pick(c, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33}, scaleN(65))
	far := core.Pick(c, []int{64, 65, 100, 129}, []int{99, 100, 101, 127, 128, 129, 200, 255, 256, 257})
	core.Explore(c, "bursts", fmt.Sprintf("N editor requests, N of %v (single kinds also %v), patterns of 1..2 out of %d kinds (with the outcome of the delivery), outcomes %v of other runs, at once and one by one", ns, far, len(kinds), plans), func(yield func(burstCase) bool) {
		for i, n := range append(append([]int{}, ns...), far...) {
			for wd := range core.Words(len(kinds), 1, 2) {
				for p, plan := range plans {
					for _, lock := range []bool{false, true} {
						if len(wd) == 2 && (plan != "o" || wd[0] == wd[1] || i >= len(ns) || !c.Thorough() && (n > 12 && (n+wd[0]+wd[1])%5 > 0 || lock)) {
							continue
						}
						if len(wd) == 1 && plan != "o" && strings.Contains(kinds[wd[0]], "out=") {
							continue
						}
						x := burstCase{N: n, Plan: plan, Args: (n + p + wd[0]) % 6, Lock: lock}
						for _, k := range wd {
							x.Word = append(x.Word, kinds[k])
						}
						if !yield(x) {
							return
						}
					}
				}
			}
		}
	}, func(w *core.Worker, x burstCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", x.N)
			c.Distinct(fmt.Sprint(x))
		}
		return c13run(w, x)
	})
}

func c13run(w *core.Worker, x burstCase) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	fail := func(format string, a ...any) core.Out {
		return core.Bad("bursts:"+core.ShortHash(fmt.Sprint(x)), "%+v: %s", x, fmt.Sprintf(format, a...))
	}
	log := dir + "/fake.log"
	args := []string{"-emacsclient", filepath.Join(w.C.Bin, "fakeemacs")}
	var user []string
	for i := 0; i < x.Args; i++ {
		user = append(user, fmt.Sprintf("extra %d", i))
		args = append(args, "-emacsarg", user[i])
	}
	type want struct {
		target string
		line   string
		ok     bool // success
		none   bool // must not be delivered
	}
	var reqs []want
	var bodies [][]byte
	for i := 0; i < x.N; i++ {
		kind, own, has := strings.Cut(x.Word[i%len(x.Word)], "/out=")
		q := want{ok: !has || own == "r"}
		switch kind {
		case "capture":
			q.target = fmt.Sprintf("org-protocol://capture?n=%d&", i)
			q.none = x.Plan != "o"
			if has {
				q.target += "/out=" + own
			}
			bodies = append(bodies, drv.Req(i, "linkremark.capture", capture("org-protocol", q.target, nil)))
		case "visit":
			q.line = fmt.Sprintf("+%d", i+1)
			q.target = fmt.Sprintf("%s/%d.org", dir, i)
			if has {
				q.target = fmt.Sprintf("%s/%d/out=%s", dir, i, own)
				mkdir(fmt.Sprintf("%s/%d", dir, i))
			}
			q.none = x.Plan != "o" && x.Plan != "n"
			drv.WriteFile(q.target, "")
			args = append(args, "-org", q.target)
			bodies = append(bodies, drv.Req(i, "burl.visit", map[string]any{"file": q.target, "lineNo": i + 1}))
		default:
			q.target = fmt.Sprintf("%s/other%d.org", dir, i)
			q.none = true
			bodies = append(bodies, drv.Req(i, "burl.visit", map[string]any{"file": q.target}))
		}
		q.ok = q.ok && !q.none
		reqs = append(reqs, q)
	}
	r := backend(w, dir, args...)
	r.Env = drv.FakeEnv(log, x.Plan)
	run := drv.Burst
	if x.Lock {
		run = drv.Lockstep
	}
	s, bad, err := run(r, bodies...)
	if err != nil {
		return core.Out{Err: err}
	}
	if bad != "" {
		return fail("%s", drv.Short(bad, 800))
	}
	runs, err := drv.FakeRuns(log)
	if err != nil {
		return core.Out{Err: err}
	}
	targets := map[string]int{}
	for i, q := range reqs {
		targets[q.target] = i
	}
	delivered := make([]int, x.N)
	for _, argv := range runs {
		if !subsequence(user, argv) {
			return fail("extra arguments %q are not passed: %q", user, argv)
		}
		which, lines := -1, []string{}
		for _, a := range argv {
			if strings.HasPrefix(a, "+") {
				lines = append(lines, a)
			}
			if i, ok := targets[a]; ok {
				if which >= 0 {
					return fail("a single run has got %q and %q: %q", reqs[which].target, a, argv)
				}
				which = i
			}
		}
		if which < 0 {
			if len(lines) > 0 {
				return fail("a line number without a file: %q", argv)
			}
			continue
		}
		delivered[which]++
		if l := strings.Join(lines, " "); l != reqs[which].line {
			return fail("line %q instead of %q: %q", l, reqs[which].line, argv)
		}
	}
	for i, q := range reqs {
		rep := s.Get(i)
		switch {
		case rep == nil:
			return fail("no single reply to request %d: %s", i, drv.Short(s.Done.String(), 600))
		case rep.OK() != q.ok:
			return fail("reply to %q is %s", q.target, drv.Short(string(rep.Raw), 300))
		case q.none && delivered[i] != 0 || q.ok && delivered[i] != 1 || delivered[i] > 1:
			return fail("%q is delivered %d times, reply %s", q.target, delivered[i], drv.Short(string(rep.Raw), 300))
		}
	}
	return core.Out{}
}
