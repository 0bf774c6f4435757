package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	"verif/core"
	"verif/drv"
)

type srcCase struct {
	Kinds []int
	Flag  int
	Order int
}

var srcKinds = []string{"ok", "oktxt", "missing", "dir", "loop", "long", "longlast", "dangling", "notdir"}

func c23(c *core.Ctx) {
	c.Rule("sequences of sources of several kinds; with an unreadable one every urlMentions and linkSet request must be an error while other methods work; without one the replies are compared with the model; non-trivial: distinct (sources, kind of option, order of requests)")
	c.Assume("a line longer than the 64 KiB buffer of the scanner counts as unreadable, as the program reports it")
	n := core.Pick(c, 3, 4)
	core.Explore(c, "sources", fmt.Sprintf("all sequences of 1..%d sources out of %v x options org/txt/positional x 2 orders of requests", n, srcKinds), func(yield func(srcCase) bool) {
		for k := range core.Words(len(srcKinds), 1, n) {
			for f := 0; f < 3; f++ {
				for o := 0; o < 2; o++ {
					if !yield(srcCase{k, f, o}) {
						return
					}
				}
			}
		}
	}, func(w *core.Worker, x srcCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		key := fmt.Sprintf("sources:%v:%d", x.Kinds, x.Flag)
		var args []string
		var secs []*drv.Sec
		bad := false
		first := ""
		for i, k := range x.Kinds {
			p := fmt.Sprintf("%s/%d.org", dir, i)
			kind := srcKinds[k]
			flag := []string{"-org", "-txt", ""}[x.Flag]
			switch kind {
			case "ok":
				drv.WriteFile(p, fmt.Sprintf("text\nhttp://a.org/x\nhttps://f%d.org/y\n", i))
				secs = append(secs, &drv.Sec{File: true, Path: p, Links: []drv.Lnk{{URL: "http://a.org/x", Line: 2}}})
			case "oktxt":
				p = fmt.Sprintf("%s/%d.txt", dir, i)
				drv.WriteFile(p, fmt.Sprintf("http://a.org/x\nhttps://f%d.org/y\n", i))
				secs = append(secs, &drv.Sec{File: true, Path: p, Links: []drv.Lnk{{URL: "http://a.org/x", Line: 1}}})
			case "notdir":
				bad = true
				drv.WriteFile(p, "")
				p += "/x.org"
			default:
				bad = true
				badSource(kind, p)
			}
			if i == 0 {
				first = p
			}
			if flag != "" {
				args = append(args, flag, p)
			} else {
				args = append(args, p)
			}
		}
		args = append([]string{"-emacsclient", filepath.Join(c.Bin, "fakeemacs")}, args...)
		m := func(id string) []byte { return mentions(id, []string{"http://a.org/x"}, big) }
		ls := func(id string) []byte {
			return drv.Req(id, "linkremark.linkSet", map[string]any{"prefix": []string{"http", "https"}})
		}
		hello := func(id string) []byte {
			return drv.Req(id, "hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "1"}}})
		}
		visit := func(id string) []byte { return drv.Req(id, "burl.visit", map[string]any{"file": first}) }
		seq := [][]byte{m("m1"), hello("h1"), ls("l1"), m("m2"), visit("v1"), ls("l2"), hello("h2")}
		if x.Order == 1 {
			seq = [][]byte{ls("l1"), visit("v1"), m("m1"), ls("l2"), hello("h1"), m("m2"), hello("h2")}
		}
		r := backend(w, dir, args...)
		r.Env = drv.FakeEnv(dir+"/fake.log", "o")
		run := drv.Lockstep
		if len(x.Kinds)%2 == 0 {
			run = drv.Burst
		}
		s, broken, err := run(r, seq...)
		if err != nil || broken != "" {
			return core.Out{Err: err, Viol: broken, Key: key}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		for _, id := range []string{"m1", "m2", "l1", "l2", "h1", "h2", "v1"} {
			rep := s.Get(id)
			if rep == nil {
				return core.Bad(key, "no single reply to %s: %s", id, drv.Short(s.Done.String(), 900))
			}
			switch {
			case id[0] == 'h' || id[0] == 'v':
				if !rep.OK() {
					return core.Bad(key, "%s: unexpected error %v", id, rep.Error)
				}
			case bad:
				if rep.OK() {
					return core.Bad(key, "sources %s: %s is answered %s", names(x.Kinds), id, drv.Short(string(rep.Result), 500))
				}
			case !rep.OK():
				return core.Bad(key, "sources %s: %s: unexpected error %v", names(x.Kinds), id, rep.Error)
			case id[0] == 'm':
				if df := drv.Diff(rep.Result, secs, matcher("http://a.org/x")); df != "" {
					return core.Bad(key, "sources %s: %s", names(x.Kinds), df)
				}
			default:
				got := drv.ReplyKey(rep)
				for i := range x.Kinds {
					if !strings.Contains(got, fmt.Sprintf("\"https://f%d.org/y\"", i)) {
						return core.Bad(key, "sources %s: links of file %d are missing: %s", names(x.Kinds), i, got)
					}
				}
			}
		}
		return core.Out{}
	})
	fifoSources(c, false)
	slowSources(c, false)
	c23io(c)
}

func names(k []int) string {
	var l []string
	for _, i := range k {
		l = append(l, srcKinds[i])
	}
	return strings.Join(l, ",")
}

type ioCase struct {
	Set   int // files
	Query string
	Fault string
}

var ioSets = [][]string{{"a.org"}, {"b.txt"}, {"a.org", "b.txt"}, {"b.txt", "big.org"}, {"big.org"}, {"big.txt", "a.org"}}

func ioContent(name string) string {
	s := "* Head\nhttp://a.org/x in " + name + "\nhttps://one.org/" + name + "\n"
	if strings.HasPrefix(name, "big") {
		for i := 0; i < 260; i++ {
			s += fmt.Sprintf("line %d of the text without anything\n", i)
			if i%40 == 0 {
				s += fmt.Sprintf("http://a.org/x and https://n%d.org/%s\n", i, name)
			}
		}
	}
	return s + "http://a.org/x at the end\nhttps://two.org/" + name + "\n"
}

// c23io makes operations on source files fail.
func c23io(c *core.Ctx) {
	run := func(w *core.Worker, x ioCase) (tr []fsCall, o core.Out) {
		dir := w.Fresh()
		defer rm(dir)
		key := fmt.Sprintf("io:%v", x)
		var args []string
		for _, f := range ioSets[x.Set] {
			drv.WriteFile(dir+"/"+f, ioContent(f))
			args = append(args, "-"+f[strings.LastIndex(f, ".")+1:], dir+"/"+f)
		}
		q := func(id string) []byte {
			if x.Query == "linkSet" {
				return drv.Req(id, "linkremark.linkSet", map[string]any{"prefix": []string{"http", "https"}})
			}
			return mentions(id, []string{"http://a.org/x"}, big)
		}
		hello := drv.Req("h", "hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "1"}}})
		r := drv.Run{Path: filepath.Join(c.Bin, "burl_backend"), Args: append([]string{"-log", "", "-emacsclient", filepath.Join(c.Bin, "fakeemacs")}, args...), Dir: dir}
		ref, bad, err := drv.Lockstep(r, q("q1"), hello, q("q2"))
		if err != nil || bad != "" {
			return nil, core.Out{Err: err, Viol: bad, Key: key}
		}
		if ref.Get("q1") == nil || !ref.Get("q1").OK() {
			return nil, core.Bad(key, "%+v without faults: %s", x, drv.Short(ref.Done.String(), 600))
		}
		log := dir + ".log"
		defer rm(log)
		r.Args = append([]string{log, x.Fault, dir, r.Path}, r.Args...)
		r.Path = filepath.Join(c.Bin, "fstrace")
		s, bad, err := drv.Lockstep(r, q("q1"), hello, q("q2"))
		tr, terr := parseTrace(log)
		if err != nil || terr != nil {
			return nil, core.Out{Err: fmt.Errorf("%v %v", err, terr)}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		hard, soft := false, false
		for _, cl := range tr {
			if strings.HasPrefix(x.Fault, fmt.Sprintf("%d:err=", cl.N)) {
				if (cl.Name == "open" || cl.Name == "read" || cl.Name == "readv") && !strings.HasSuffix(x.Fault, "=4") {
					hard = true
				} else {
					soft = true
				}
			}
		}
		if bad != "" || s.Get("q1") == nil {
			if soft && s != nil && s.Done.Code != 0 && !s.Done.Crashed() {
				return tr, core.Out{} // refuses to start
			}
			return nil, core.Bad(key, "%+v: session failed: %s %s", x, bad, drv.Short(s.Done.String(), 900))
		}
		nerr := 0
		for _, id := range []string{"q1", "h", "q2"} {
			rep := s.Get(id)
			if rep == nil {
				return nil, core.Bad(key, "%+v: no reply to %s: %s", x, id, drv.Short(s.Done.String(), 900))
			}
			switch {
			case drv.ReplyKey(rep) == drv.ReplyKey(ref.Get(id)):
			case rep.OK() || id == "h":
				return nil, core.Bad(key, "%+v: %s is answered with\n%s\ninstead of\n%s", x, id, drv.Short(drv.ReplyKey(rep), 700), drv.Short(drv.ReplyKey(ref.Get(id)), 700))
			default:
				nerr++
			}
		}
		if hard && nerr == 0 {
			return nil, core.Bad(key, "%+v: a failure of an operation on a source file is not reported", x)
		}
		if !hard && !soft && nerr > 0 {
			return nil, core.Bad(key, "%+v: unexpected error reply: %s", x, drv.Short(s.Done.String(), 900))
		}
		return tr, core.Out{}
	}
	var mu sync.Mutex
	var level []ioCase
	core.Explore(c, "source reads", fmt.Sprintf("%d sets of files x urlMentions, linkSet", len(ioSets)), func(yield func(ioCase) bool) {
		for i := range ioSets {
			if !yield(ioCase{i, "mentions", ""}) || !yield(ioCase{i, "linkSet", ""}) {
				return
			}
		}
	}, func(w *core.Worker, x ioCase) core.Out {
		tr, o := run(w, x)
		mu.Lock()
		defer mu.Unlock()
		for _, cl := range tr {
			errs := []int{5}
			if cl.Name == "open" {
				errs = []int{13, 5, 24, 2, 4}
			} else if cl.Name == "read" {
				errs = []int{5, 4, 116, 21}
			}
			for _, e := range errs {
				y := x
				y.Fault = fmt.Sprintf("%d:err=%d", cl.N, e)
				level = append(level, y)
			}
			if cl.Name == "read" && cl.Res > 0 {
				ks := []int{1, 2, 7, cl.Res / 2, cl.Res - 2, cl.Res - 1}
				if c.Thorough() {
					for k := 3; k < cl.Res-2; k++ {
						ks = append(ks, k)
					}
				}
				for _, k := range ks {
					if k <= 0 {
						continue
					}
					y := x
					y.Fault = fmt.Sprintf("%d:len=%d", cl.N, k)
					level = append(level, y)
				}
			}
		}
		for k := range core.Pick(c, 12, 64) {
			y := x
			y.Fault = fmt.Sprintf("*:read=%d", k+1)
			level = append(level, y)
		}
		return o
	})
	core.Explore(c, "failures of source reads", "an error at every operation on source files, short transfers of single reads and of all reads", func(yield func(ioCase) bool) {
		for _, x := range level {
			if !yield(x) {
				return
			}
		}
	}, func(w *core.Worker, x ioCase) core.Out {
		_, o := run(w, x)
		return o
	})
}
