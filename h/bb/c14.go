package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verif/core"
	"verif/drv"
)

type helloFmt struct{ F, V string }

type helloCase struct {
	Files   int // bits: 1 -org, 2 -txt, 4 positional, 8 missing file
	Disable string
	Method  string
	Lists   [][]int
}

var helloAlpha = []helloFmt{{"org-protocol", "0.2"}, {"org-protocol", "7.x\u00e9"}, {"object", "0.2"}, {"Org-Protocol", "0.1"}, {"org-protocol ", "3"}, {"", "4"}, {"org-protocol", " "}}

func c14(c *core.Ctx) {
	c.Rule("every list of offered formats x every configuration of sources and switches in one session; the reply is compared with the rule of the property and the methods are called in the same session; non-trivial: distinct (configuration, list)")
	c.Assume("a format entry with an empty version is not offered; a capability reply lists names as a set")
	n := core.Pick(c, 3, 4)
	var lists [][]int
	for l := range core.Words(len(helloAlpha), 0, n) {
		lists = append(lists, l)
	}
	c.Sample(helloAlpha)
	core.Explore(c, "hello", fmt.Sprintf("format lists of 0..%d entries over %d and lists with up to 257 (1025) entries before the wanted one, 11 source configurations x 4 switch forms x 3 method names", n, len(helloAlpha)), func(yield func(helloCase) bool) {
		for _, f := range []int{0, 1, 2, 4, 3, 5, 6, 7, 8, 9, 16} {
			for _, d := range []string{"", "-disable-link-set", "--disable-link-set=true", "-disable-link-set=false"} {
				for i, m := range []string{"hello", "linkremark.hello", "burl.hello"} {
					if i > 0 && f != 1 && f != 0 {
						continue
					}
					if i == 0 {
						// the position in a long list
						var long [][]int
						for _, n := range scaleN(core.Pick(c, 257, 1025)) {
							for _, l := range [][]int{{2, 0, 1}, {3, 1, 0}, {6, 0, 1}, {0, 1, 2}} {
								t := make([]int, n, n+9)
								for j := range t {
									t[j] = l[0]
								}
								long = append(long, append(t, l[1], l[2], l[2], l[1]), t)
							}
						}
						for b := range core.Batch(core.Slice(long), 100) {
							if f > 2 {
								break
							}
							if !yield(helloCase{f, d, m, b}) {
								return
							}
						}
					}
					for b := range core.Batch(core.Slice(lists), 200) {
						if !yield(helloCase{f, d, m, b}) {
							return
						}
					}
				}
			}
		}
	}, func(w *core.Worker, x helloCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var args []string
		drv.WriteFile(dir+"/a.org", "http://a.org/x\n")
		drv.WriteFile(dir+"/b.txt", "http://b.org/x\n")
		drv.WriteFile(dir+"/c.org", "http://c.org/x\n")
		drv.WriteFile(dir+"/empty.org", "")
		if x.Disable != "" {
			args = append(args, x.Disable)
		}
		args = append(args, "-emacsclient", filepath.Join(c.Bin, "fakeemacs"))
		if x.Files&1 != 0 {
			args = append(args, "-org", dir+"/a.org")
		}
		if x.Files&2 != 0 {
			args = append(args, "-txt", dir+"/b.txt")
		}
		if x.Files&8 != 0 {
			args = append(args, "-org", dir+"/missing.org")
		}
		if x.Files&16 != 0 {
			args = append(args, "-org", dir+"/empty.org")
		}
		if x.Files&4 != 0 {
			args = append(args, dir+"/c.org")
		}
		disabled := strings.HasSuffix(x.Disable, "set") || strings.HasSuffix(x.Disable, "=true")
		var bodies [][]byte
		for i, l := range x.Lists {
			q := map[string]any{"version": "0.2"}
			if len(l) > 0 || i%2 == 0 {
				fs := []any{}
				for _, k := range l {
					e := map[string]any{"format": helloAlpha[k].F, "version": helloAlpha[k].V}
					if k%2 == 0 {
						e["options"] = map[string]any{"clipboardForBody": true}
					}
					fs = append(fs, e)
				}
				q["formats"] = fs
			}
			bodies = append(bodies, drv.Req(i, x.Method, q))
		}
		first := map[int]string{1: "/a.org", 2: "/b.txt", 4: "/c.org", 3: "/a.org", 5: "/a.org", 6: "/b.txt", 7: "/a.org", 8: "/missing.org", 9: "/a.org", 16: "/empty.org"}
		url := map[int]string{1: "http://a.org/x", 2: "http://b.org/x", 4: "http://c.org/x", 3: "http://b.org/x", 5: "http://c.org/x", 6: "http://c.org/x", 7: "http://a.org/x", 9: "http://a.org/x", 16: "http://a.org/x", 8: "http://a.org/x", 0: "http://a.org/x"}[x.Files]
		bodies = append(bodies, mentions("m", []string{url}, big), drv.Req("s", "linkremark.linkSet", map[string]any{"prefix": []string{"http"}}),
			drv.Req("v", "linkremark.visit", map[string]any{"file": dir + first[x.Files]}))
		run := backend(w, dir, args...)
		run.Env = drv.FakeEnv(dir+"/fake.log", "o")
		s, bad, err := drv.Burst(run, bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: "hello"}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", len(bodies))
		}
		fail := func(i int, format string, a ...any) core.Out {
			o := core.Bad(fmt.Sprintf("hello:%d:%s:%v", x.Files, x.Disable, x.Lists[max(i, 0)]), "sources %d %s: %s", x.Files, x.Disable, fmt.Sprintf(format, a...))
			if i >= 0 && len(x.Lists) > 1 {
				y := x
				y.Lists = x.Lists[i : i+1]
				o.Min = y
			}
			return o
		}
		for i, l := range x.Lists {
			r := s.Get(i)
			if r == nil {
				return fail(i, "hello %v has no single reply", l)
			}
			want := ""
			for _, k := range l {
				if helloAlpha[k].F == "org-protocol" {
					want = helloAlpha[k].V
					break
				}
			}
			c.Distinct(core.ShortHash(fmt.Sprint(x.Files, x.Disable, x.Method, l)))
			if want == "" {
				if r.OK() {
					return fail(i, "formats %v: expected an error, got %s", l, r.Result)
				}
				continue
			}
			if !r.OK() {
				return fail(i, "formats %v: error %v", l, r.Error)
			}
			var v struct {
				Format, Version string
				Capabilities    []string
			}
			if err := json.Unmarshal(r.Result, &v); err != nil {
				return fail(i, "bad result %s", r.Result)
			}
			sort.Strings(v.Capabilities)
			caps := ""
			if x.Files != 0 {
				caps = "urlMentions visit"
				if !disabled {
					caps = "linkSet urlMentions visit"
				}
			}
			if v.Format != "org-protocol" || v.Version != want || strings.Join(v.Capabilities, " ") != caps {
				return fail(i, "formats %v: got %s, expected version %q capabilities %q", l, r.Result, want, caps)
			}
		}
		m, ls, v := s.Get("m"), s.Get("s"), s.Get("v")
		if m == nil || ls == nil || v == nil {
			return fail(-1, "a method is not answered: %s", drv.Short(s.Done.String(), 500))
		}
		readable := x.Files&7 != 0 && x.Files&8 == 0
		if m.OK() != readable && x.Files != 16 {
			return fail(-1, "urlMentions: %s", m.Raw)
		}
		if readable {
			if n, err := drv.ParseTree(m.Result); err != nil || n.Filtered != 1 {
				return fail(-1, "urlMentions %s: %s", url, m.Raw)
			}
		}
		if ls.OK() != ((readable || x.Files == 16) && !disabled) {
			return fail(-1, "linkSet: %s", ls.Raw)
		}
		if v.OK() != (x.Files != 0) {
			return fail(-1, "visit: %s", v.Raw)
		}
		return core.Out{}
	})
}
