// Command sched explores the thread interleavings of the real code: the
// repository and net/rpc are compiled with a scheduling point before every
// statement and every synchronization, and every schedule up to a number of
// preemptions is executed.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/core"
	"verif/drv"
)

type scenario struct {
	name   string
	client []string // arguments of the client program
	args   []string // of the backend
	reqs   []string // method and parameters
}

type schedCase struct {
	Scn  string
	Mode string
	Dev  [][2]int // choice point, thread
}

type reference struct {
	reply []string
	runs  []string // sorted editor runs of all requests
}

type explorer struct {
	c    *core.Ctx
	bin  string
	dir  string
	mu   sync.Mutex
	seen map[uint64]struct{}
}

const orgText = `Top [[http://a.org/x][t]]
* One
http://a.org/x and http://a.org/y
** Two
[[https://a.org/x/][d]]
* Three
<mid:q@w>
`

const txtText = "see http://a.org/x\nhttps://b.org/\n"

func (e *explorer) backendArgs(s *scenario) []string {
	return append(append([]string{"-log", "", "-emacsclient", filepath.Join(e.c.Bin, "fakeemacs")}, s.args...),
		"-org", filepath.Join(e.dir, "a.org"), "-txt", filepath.Join(e.dir, "b.txt"))
}

func (e *explorer) body(s *scenario, i int) []byte {
	m, p, _ := strings.Cut(s.reqs[i], " ")
	p = strings.ReplaceAll(p, "@", e.dir)
	return []byte(fmt.Sprintf(`{"id":"r%d","method":"%s","params":[%s]}`, i, m, p))
}

func runKey(argv []string) string { return fmt.Sprintf("%q", argv) }

// alone runs every request of the scenario as the only one of a session of
// the program that is not instrumented.
func (e *explorer) alone(s *scenario) (*reference, string, error) {
	ref := &reference{}
	log := filepath.Join(e.dir, "alone.log")
	for i := range s.reqs {
		drv.FakeReset(log)
		r := drv.Run{Path: filepath.Join(e.c.Bin, "burl_backend"), Args: e.backendArgs(s), Dir: e.dir, Env: drv.FakeEnv(log, "o")}
		ss, bad, err := drv.Burst(r, e.body(s, i))
		if err != nil {
			return nil, "", err
		}
		if bad != "" {
			return nil, bad, nil
		}
		rep := ss.Get(fmt.Sprint("r", i))
		if rep == nil {
			return nil, "request alone is not answered: " + drv.Short(ss.Done.String(), 600), nil
		}
		ref.reply = append(ref.reply, drv.ReplyKey(rep))
		runs, err := drv.FakeRuns(log)
		if err != nil {
			return nil, "", err
		}
		for _, a := range runs {
			ref.runs = append(ref.runs, runKey(a))
		}
	}
	sort.Strings(ref.runs)
	drv.FakeReset(log)
	return ref, "", nil
}

type choice struct {
	preempt bool
	got     int
	enabled []int
}

func parseTrace(data string) (cs []choice, hashes []uint64, end string, steps int) {
	for _, line := range strings.Split(data, "\n") {
		if line == "" {
			continue
		}
		if strings.HasPrefix(line, "end ") {
			f := strings.Fields(line)
			end = f[1]
			steps, _ = strconv.Atoi(f[2])
			continue
		}
		head, _, _ := strings.Cut(line, ";")
		f := strings.Fields(head)
		ch := choice{preempt: f[0] == "p"}
		ch.got, _ = strconv.Atoi(f[3])
		for _, x := range f[4:] {
			n, _ := strconv.Atoi(x)
			ch.enabled = append(ch.enabled, n)
		}
		cs = append(cs, ch)
		h := fnv.New64a()
		h.Write([]byte(line))
		hashes = append(hashes, h.Sum64())
	}
	return
}

// exec runs one schedule and checks what is observed.
func (e *explorer) exec(w *core.Worker, s *scenario, ref *reference, x schedCase) (cs []choice, o core.Out) {
	dir := w.Fresh()
	defer os.RemoveAll(dir)
	var dev []string
	for _, d := range x.Dev {
		dev = append(dev, fmt.Sprintf("%d:%d", d[0], d[1]))
	}
	tr := filepath.Join(dir, "trace")
	zzv := fmt.Sprintf("ZZV=%s;%s;%s", tr, x.Mode, strings.Join(dev, ","))
	log := filepath.Join(dir, "fake.log")
	r := drv.Run{Dir: e.dir, Env: append(drv.FakeEnv(log, "o"), zzv, "GOMAXPROCS=1", "GOGC=off"), Limit: 30 * time.Second}
	if s.client != nil {
		r.Path, r.Args = filepath.Join(e.bin, "inst_zzclient"), s.client
	} else {
		r.Path, r.Args = filepath.Join(e.bin, "inst_burl_backend"), e.backendArgs(s)
		for i := range s.reqs {
			r.Stdin = append(r.Stdin, drv.Frame(e.body(s, i))...)
		}
	}
	d, err := r.Do()
	if err != nil {
		return nil, core.Out{Err: err}
	}
	data, _ := os.ReadFile(tr)
	cs, hashes, end, steps := parseTrace(string(data))
	if e.c.ReplayCase == nil {
		e.c.Count("transitions", steps)
		e.c.Count("traces_validated_against_impl", 1)
		if len(x.Dev) > 0 {
			e.c.Distinct(s.name + string(data))
		}
		e.mu.Lock()
		for _, h := range hashes {
			e.seen[h] = struct{}{}
		}
		e.mu.Unlock()
	}
	key := "schedule:" + s.name
	what := fmt.Sprintf("%s %v: ", s.name, x.Dev)
	if end == "deadlock" {
		return nil, core.Bad(key, "%sdeadlock: %s", what, drv.Short(d.String(), 900))
	}
	if d.Hang {
		// An operation that the scheduler does not know.
		e.c.Count("undecided", 1)
		return nil, core.Out{}
	}
	if d.Crashed() || d.Code != 0 || end != "ok" {
		return nil, core.Bad(key, "%sthe program failed: %s", what, drv.Short(d.String(), 1500))
	}
	if s.client != nil {
		return cs, checkClient(s, key, what, d.Stdout)
	}
	ss, bad := drv.Parse(d)
	if bad != "" {
		return nil, core.Bad(key, "%s%s", what, bad)
	}
	for i := range s.reqs {
		id := fmt.Sprint("r", i)
		if n := len(ss.Replies[strconv.Quote(id)]); n != 1 {
			return nil, core.Bad(key, "%srequest %d has %d replies: %s", what, i, n, drv.Short(d.String(), 900))
		}
		if got := drv.ReplyKey(ss.Get(id)); got != ref.reply[i] {
			return nil, core.Bad(key, "%srequest %d %s is answered with\n%s\nand alone with\n%s", what, i, s.reqs[i], drv.Short(got, 900), drv.Short(ref.reply[i], 900))
		}
	}
	if len(ss.Frames) != len(s.reqs) {
		return nil, core.Bad(key, "%s%d replies to %d requests", what, len(ss.Frames), len(s.reqs))
	}
	runs, err := drv.FakeRuns(log)
	if err != nil {
		return nil, core.Out{Err: err}
	}
	var got []string
	for _, a := range runs {
		got = append(got, runKey(a))
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(ref.runs) {
		return nil, core.Bad(key, "%seditor runs are\n%s\ninstead of\n%s", what, strings.Join(got, "\n"), strings.Join(ref.runs, "\n"))
	}
	return cs, core.Out{}
}

func checkClient(s *scenario, key, what string, stdout []byte) core.Out {
	var v struct {
		Calls []struct {
			N   int
			Err string
			Res struct {
				N int
				S string
			}
		}
		Req, Rep []byte
	}
	if err := json.Unmarshal(stdout, &v); err != nil {
		return core.Out{Err: err}
	}
	req, rest := drv.SplitFrames(v.Req)
	if len(rest) != 0 {
		return core.Bad(key, "%srequests are not a sequence of frames: %.300q", what, v.Req)
	}
	ids := map[int]int{} // call → id
	for _, f := range req {
		var m struct {
			ID     int
			Method string
			Params []struct {
				N int
				S string
			}
		}
		if err := json.Unmarshal(f, &m); err != nil || len(m.Params) != 1 || m.Params[0].S != fmt.Sprint("s", m.Params[0].N) {
			return core.Bad(key, "%srequest frame %.300q: %v", what, f, err)
		}
		if _, dup := ids[m.Params[0].N]; dup {
			return core.Bad(key, "%scall %d is sent twice", what, m.Params[0].N)
		}
		ids[m.Params[0].N] = m.ID
	}
	k, _ := strconv.Atoi(s.client[0])
	if len(v.Calls) != k {
		return core.Out{Err: fmt.Errorf("%d calls", len(v.Calls))}
	}
	rep, rest := drv.SplitFrames(v.Rep)
	server := s.client[1] == "server"
	if server {
		if len(req) != k || len(rep) != k || len(rest) != 0 {
			return core.Bad(key, "%s%d request and %d reply frames, rest %.200q", what, len(req), len(rep), rest)
		}
	}
	arrived := map[int]bool{}
	for _, f := range rep {
		r, err := drv.ParseReply(f)
		if err != nil {
			return core.Bad(key, "%sreply frame %.200q: %v", what, f, err)
		}
		n, _ := strconv.Atoi(string(r.ID))
		arrived[n] = true
	}
	for _, c := range v.Calls {
		id, sent := ids[c.N]
		want, wantN, wantS := "", c.N*10, fmt.Sprint("s", c.N, "s", c.N)
		switch {
		case server && c.N%3 == 2:
			want, wantN, wantS = fmt.Sprint("failed ", c.N), 0, ""
		case !server && sent && arrived[id]:
			wantN, wantS = id+100, "r"
		case !server:
			if c.Err == "" || c.Res.N != 0 || c.Res.S != "" {
				return core.Bad(key, "%scall %d without a reply completed with %+v", what, c.N, c)
			}
			continue
		}
		if c.Err != want || c.Res.N != wantN || c.Res.S != wantS {
			return core.Bad(key, "%scall %d completed with %+v instead of %q %d %q", what, c.N, c, want, wantN, wantS)
		}
	}
	return core.Out{}
}

// explore executes all schedules of a scenario with at most `bound` preemptions.
func (e *explorer) explore(s *scenario, mode string, bound, limit int, share time.Time) {
	c := e.c
	space := fmt.Sprintf("schedules %s (%s)", s.name, mode)
	ref := &reference{}
	if s.client == nil {
		var bad string
		var err error
		if ref, bad, err = e.alone(s); err != nil {
			c.Error("%s: %v", s.name, err)
			return
		} else if bad != "" {
			js, _ := json.Marshal(schedCase{s.name, mode, nil})
			c.AddViolation(core.Violation{Space: space, Key: "alone:" + s.name, Msg: bad, Replay: js})
			return
		}
	}
	level := []schedCase{{Scn: s.name, Mode: mode}}
	cost := []int{0}
	total := 0
	for depth := 0; len(level) > 0; depth++ {
		var mu sync.Mutex
		var next []schedCase
		var nextCost []int
		costOf := map[string]int{}
		for i := range level {
			costOf[fmt.Sprint(level[i].Dev)] = cost[i]
		}
		bounds := fmt.Sprintf("%d requests or calls, all schedules with %d deviations from the default schedule and at most %d preemptions (at most one choice more than preemptions), scheduling points at %s statements", max(len(s.reqs), 1), depth, bound, map[string]string{"fine": "all", "coarse": "shared access and synchronization"}[mode])
		core.Explore(c, space, bounds, func(yield func(schedCase) bool) {
			for _, x := range level {
				if time.Now().After(share) {
					c.Partial()
					return
				}
				if !yield(x) {
					return
				}
			}
		}, func(w *core.Worker, x schedCase) core.Out {
			cs, o := e.exec(w, s, ref, x)
			if o.Viol != "" || o.Err != nil || c.ReplayCase != nil {
				return o
			}
			k := costOf[fmt.Sprint(x.Dev)]
			from := 0
			if n := len(x.Dev); n > 0 {
				from = x.Dev[n-1][0] + 1
			}
			var add []schedCase
			var addCost []int
			for i := from; i < len(cs); i++ {
				n := k
				if cs[i].preempt {
					n++
				}
				if n > bound || len(x.Dev) > bound {
					continue
				}
				for _, t := range cs[i].enabled {
					if t != cs[i].got {
						add = append(add, schedCase{s.name, mode, append(append([][2]int{}, x.Dev...), [2]int{i, t})})
						addCost = append(addCost, n)
					}
				}
			}
			mu.Lock()
			if len(next) < limit {
				next = append(next, add...)
				nextCost = append(nextCost, addCost...)
			} else if len(add) > 0 {
				c.Partial()
			}
			mu.Unlock()
			return o
		})
		if c.ReplayCase != nil {
			return
		}
		total += len(level)
		level, cost = next, nextCost
		if c.Stopped() || time.Now().After(share) {
			if len(level) > 0 {
				c.Partial()
			}
			return
		}
	}
}

func start(c *core.Ctx) *explorer {
	e := &explorer{c: c, bin: filepath.Join(c.Scratch, "inst"), dir: filepath.Join(c.Scratch, "docs"), seen: map[uint64]struct{}{}}
	os.MkdirAll(e.bin, 0755)
	os.MkdirAll(e.dir, 0755)
	drv.WriteFile(filepath.Join(e.dir, "a.org"), orgText)
	drv.WriteFile(filepath.Join(e.dir, "b.txt"), txtText)
	b, err := build(c.Repo, filepath.Join(c.Scratch, "src"), e.bin)
	if err != nil {
		// The tree may use something the instrumentation does not support;
		// the other parts of the check still decide.
		fmt.Println("interleavings are not explored:", err)
		c.Assume("interleavings were not explored: " + drv.Short(err.Error(), 300))
		c.Partial()
		return nil
	}
	c.Count("scheduling_sites", b.sites)
	c.Rule("every schedule of the instrumented real program up to the number of preemptions is executed; replies, frames, editor runs and call results are compared with those of each request alone; states are distinct vectors of program positions of all goroutines at choice points, transitions are executed steps")
	return e
}

func (e *explorer) run(list []*scenario, mode string, bound int) {
	for i, s := range list {
		left := time.Until(e.c.Deadline)
		share := time.Now().Add(left / time.Duration(len(list)-i))
		e.explore(s, mode, bound, 400000, share)
		if e.c.Stopped() {
			break
		}
	}
	e.c.SetCount("states", len(e.seen))
}

const (
	rqHello   = `hello {"formats":[{"format":"org-protocol","version":"0.2"}],"version":"0.2"}`
	rqUnknown = `linkremark.noSuch {"a":1}`
	rqPreview = `capture {"format":"org-protocol","data":{"url":"org-protocol:/x"},"error":"no"}`
	rqBad     = `hello 5`
	rqMenA    = `linkremark.urlMentions {"variants":["http://a.org/x"]}`
	rqMenB    = `burl.urlMentions {"variants":["http://a.org/y","mid:q@w"],"options":{"countLimit":1}}`
	rqMen1    = `linkremark.urlMentions {"variants":["http://a.org/x"],"options":{"countLimit":1}}`
	rqMenNo   = `linkremark.urlMentions {"variants":["http://no.org/"]}`
	rqSet     = `linkremark.linkSet {"prefix":["http"]}`
	rqSet2    = `burl.linkSet {"prefix":["mid:","https://b.org"]}`
	rqCap1    = `capture {"format":"org-protocol","data":{"url":"org-protocol:/one"}}`
	rqCap2    = `linkremark.capture {"format":"org-protocol","data":{"url":"org-protocol:/second?x"}}`
	rqVis1    = `linkremark.visit {"file":"@/a.org","lineNo":3}`
	rqVis2    = `burl.visit {"file":"@/b.txt"}`
)

func backends(defs ...[]string) (l []*scenario) {
	for _, d := range defs {
		l = append(l, &scenario{name: d[0], reqs: d[1:]})
	}
	return
}

func withArgs(n int, s *scenario) *scenario {
	t := *s
	t.name = fmt.Sprintf("%s+%d args", s.name, n)
	for i := 0; i < n; i++ {
		t.args = append(t.args, "-emacsarg", fmt.Sprint("--extra", i))
	}
	return &t
}

func clients(calls ...[]string) (l []*scenario) {
	for _, a := range calls {
		l = append(l, &scenario{name: "client " + strings.Join(a, " "), client: a})
	}
	return
}

func main() {
	core.Main("sched", map[string]func(*core.Ctx){
		"C02": func(c *core.Ctx) {
			if e := start(c); e != nil {
				l := append(backends(
					[]string{"mixed", rqHello, rqUnknown, rqPreview},
					[]string{"two", rqHello, rqSet2},
				), clients([]string{"2", "server", "0"}, []string{"3", "server", "0"})...)
				if !c.Thorough() {
					e.run(l[:3], "fine", 1)
					e.run(l[:1], "coarse", 2)
					return
				}
				e.run(l, "fine", 1)
				e.run(l[:3], "coarse", 2)
				e.run(l[:1], "coarse", 3)
			}
		},
		"C03": func(c *core.Ctx) {
			if e := start(c); e != nil {
				l := append(backends(
					[]string{"mixed", rqHello, rqUnknown, rqPreview},
					[]string{"bad", rqBad, rqHello, rqPreview, rqUnknown},
					[]string{"queries", rqMenB, rqHello, rqSet2},
				), clients([]string{"2", "server", "0"}, []string{"2", "cut", "70"}, []string{"3", "server", "0"})...)
				if !c.Thorough() {
					e.run(l[:5], "fine", 1)
					e.run(l[:1], "coarse", 2)
					return
				}
				e.run(l, "fine", 1)
				e.run(l[:4], "coarse", 2)
				e.run(l[:1], "coarse", 3)
			}
		},
		"C09": func(c *core.Ctx) {
			if e := start(c); e != nil {
				l := backends(
					[]string{"first queries", rqMenA, rqMenB},
					[]string{"sets", rqSet, rqSet2},
					[]string{"query and set", rqMen1, rqSet},
					[]string{"three queries", rqMenA, rqMen1, rqMenNo},
					[]string{"all", rqMenB, rqSet2, rqHello},
				)
				e.run(l, "fine", 1)
				if c.Thorough() {
					e.run(l, "coarse", 2)
				}
			}
		},
		"C13": func(c *core.Ctx) {
			if e := start(c); e != nil {
				cc := backends([]string{"two captures", rqCap1, rqCap2}, []string{"capture and visit", rqCap1, rqVis1}, []string{"two visits", rqVis1, rqVis2})
				var l, m []*scenario
				for n := 0; n <= 5; n++ {
					l = append(l, withArgs(n, cc[0]), withArgs(n, cc[1]), withArgs(n, cc[2]))
				}
				e.run(l, "fine", 1)
				three := backends([]string{"three", rqCap1, rqVis2, rqCap2}, []string{"preview", rqPreview, rqCap2, rqMenA})
				m = append(m, withArgs(2, three[0]), withArgs(3, three[0]), withArgs(1, three[1]))
				e.run(m, "fine", 1)
				if c.Thorough() {
					e.run(append(l[:9], m...), "coarse", 2)
				} else {
					e.run([]*scenario{l[7]}, "coarse", 2)
				}
			}
		},
		"C21": func(c *core.Ctx) {
			if e := start(c); e != nil {
				l := clients([]string{"2", "cut", "0"}, []string{"2", "cut", "3"}, []string{"2", "cut", "30"}, []string{"2", "cut", "52"}, []string{"2", "cut", "60"}, []string{"3", "cut", "110"})
				e.run(l, "fine", 1)
				if c.Thorough() {
					e.run(l, "coarse", 2)
				}
			}
		},
	})
}
