package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"verif/core"
	"verif/drv"
)

func c09docs() []*Doc {
	mk := func(name string, n int) *Doc {
		o := newOrg("")
		l := func(u, d string) {
			o.Line("- [["+u+"]["+d+"]]", drv.Lnk{URL: u, Descr: d})
		}
		l("http://a.org/x", "t"+name)
		o.Heading(1, " ", "One "+name, "")
		for i := 0; i < n; i++ {
			l("http://a.org/x", fmt.Sprint("d", i))
			l("https://a.org/x/", "")
			o.Heading(3, " ", fmt.Sprint("deep ", i), "")
			l("mid:b@c", "")
			l("https://b.org/y", "")
			l("http://a.org/x", "")
		}
		o.Heading(1, " ", "Two", "")
		l("https://b.org/y", "")
		d := o.Doc(true)
		d.Name = name
		return d
	}
	t := &Doc{Name: "t.txt", Flag: "txt", Content: "http://a.org/x\nhttps://b.org/y z\n", Sec: &drv.Sec{}}
	return []*Doc{mk("a.org", 2), mk("b.org", 3), t}
}

type histReq struct {
	Name   string
	Params string
}

// c09reqs: requests of all kinds.
func c09reqs() []histReq {
	l := []histReq{
		{"linkremark.urlMentions", `[{"variants":["http://a.org/x"]}]`},
		{"linkremark.urlMentions", `[{"variants":["http://a.org/x"],"options":{"countLimit":1}}]`},
		{"burl.urlMentions", `[{"variants":["http://a.org/x"],"options":{"countLimit":100}}]`},
		{"linkremark.urlMentions", `[{"variants":["https://b.org/y","mid:b@c"],"options":{"countLimit":3}}]`},
		{"linkremark.urlMentions", `[{"variants":["http://nowhere.org/"]}]`},
		{"linkremark.urlMentions", `[{"variants":[]}]`},
		{"linkremark.linkSet", `[{"prefix":["https"]}]`},
		{"burl.linkSet", `[{"prefix":["http://a.org/x","mid:"]}]`},
		{"linkremark.linkSet", `[{"prefix":["bad prefix"]}]`},
		{"hello", `[{"formats":[{"format":"org-protocol","version":"0.2"}],"version":"0.2"}]`},
		{"linkremark.visit", `[{"file":"/etc/passwd"}]`},
		{"linkremark.urlMentions", `[{"variants":["https://b.org/y/"],"options":{"countLimit":0}}]`},
		{"linkremark.capture", `[{"format":"object","version":"1"}]`},
		{"linkremark.noSuch", `[{}]`},
		{"linkremark.urlMentions", `[{"variants":["http://a.org/x","https://b.org/y","mid:b@c"],"options":{"countLimit":12}}]`},
	}
	return l
}

func (r histReq) body(id int) []byte {
	return []byte(fmt.Sprintf(`{"id":%d,"method":%q,"params":%s}`, id, r.Name, r.Params))
}

type seqCase struct {
	Mode string
	Seq  []int
}

func c09(c *core.Ctx) {
	c.Rule("sequences of requests to one backend, sent one by one or all at once; every reply is compared with the reply to the same request as the only one of a session; non-trivial: distinct (mode, sequence)")
	reqs := c09reqs()
	k := len(reqs)
	// The files are read only, so all sessions share them.
	base := c.Scratch + "/c09"
	mkdir(base)
	args := writeDocs(base, c09docs())
	be := func(w *core.Worker) drv.Run { return backend(w, base, append([]string{"-log", ""}, args...)...) }
	alone := make([]string, k)
	{
		w := &core.Worker{C: c}
		for i, r := range reqs {
			s, bad, err := drv.Burst(be(w), r.body(1))
			if err != nil || bad != "" || s.Get(1) == nil {
				if err == nil && bad == "" {
					bad = "no single reply: " + drv.Short(s.Done.String(), 600)
				}
				if err != nil {
					c.Error("reference: %v", err)
				} else {
					js, _ := json.Marshal(seqCase{"burst", []int{i}})
					c.AddViolation(core.Violation{Space: "sequences", Key: fmt.Sprint("alone", i), Msg: bad, Replay: js})
				}
				return
			}
			alone[i] = drv.ReplyKey(s.Get(1))
		}
	}
	c.Sample(map[string]string{"request": reqs[1].Name + reqs[1].Params, "reply": drv.Short(alone[1], 300)})
	run := func(w *core.Worker, x seqCase) core.Out {
		var bodies [][]byte
		for i, q := range x.Seq {
			bodies = append(bodies, reqs[q].body(i))
		}
		f := drv.Burst
		if x.Mode == "lockstep" {
			f = drv.Lockstep
		}
		s, bad, err := f(be(w), bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: "history"}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Count("replies_compared", len(x.Seq))
			c.Distinct(x.Mode + fmt.Sprint(x.Seq))
		}
		for i, q := range x.Seq {
			if got := drv.ReplyKey(s.Get(i)); got != alone[q] {
				return core.Bad(fmt.Sprint("history:", x.Seq), "%s %v: reply %d to %s%s depends on history:\n got %s\nalone %s", x.Mode, x.Seq, i, reqs[q].Name, reqs[q].Params, drv.Short(got, 1500), drv.Short(alone[q], 1500))
			}
		}
		return core.Out{}
	}
	modes := []string{"lockstep", "burst"}
	n := core.Pick(c, 3, 4)
	core.Explore(c, "sequences", fmt.Sprintf("all sequences of 2..%d requests out of %d, one by one and at once", n, k), func(yield func(seqCase) bool) {
		for s := range core.Words(k, 2, n) {
			for _, m := range modes {
				if !yield(seqCase{m, s}) {
					return
				}
			}
		}
	}, run)
	// long histories: one request often repeated, then another one
	core.Explore(c, "long", "every ordered pair (p, q): q, p 60 times, q", func(yield func(seqCase) bool) {
		for p := 0; p < k; p++ {
			for q := 0; q < k; q++ {
				s := []int{q}
				for i := 0; i < 60; i++ {
					s = append(s, p)
				}
				s = append(s, q)
				for _, m := range modes {
					if !yield(seqCase{m, s}) {
						return
					}
				}
			}
		}
	}, run)
	reps := core.Pick(c, []int{300, 1100}, []int{127, 128, 256, 257, 300, 512, 1000, 1100, 5000, 70000})
	core.Explore(c, "very long", fmt.Sprintf("every request N times, then every request, N of %v (more than 300 only at once)", reps), func(yield func(seqCase) bool) {
		for p := 0; p < k; p++ {
			for _, n := range reps {
				var s []int
				for i := 0; i < n; i++ {
					s = append(s, p)
				}
				for q := 0; q < k; q++ {
					s = append(s, q)
				}
				for _, m := range modes {
					if m == "lockstep" && n > 300 {
						continue
					}
					if !yield(seqCase{m, s}) {
						return
					}
				}
			}
		}
	}, run)
	c09pairs(c)
	c09many(c)
}

// c09many: many different queries in one session; the answers of memories of any size stay the right ones.
func c09many(c *core.Ctx) {
	type many struct {
		Mode, Method, Order string
		N                   int
	}
	sizes := core.Pick(c, []int{20, 130, 300, 1100, 2100}, []int{20, 70, 130, 260, 300, 520, 700, 1030, 1100, 2100, 4200, 9000})
	body := func(x many, id, i int) []byte {
		u := fmt.Sprintf("mid:%05d", i)
		if x.Method == "linkSet" {
			return drv.Req(id, "linkremark.linkSet", map[string]any{"prefix": []string{u}})
		}
		return drv.Req(id, "burl.urlMentions", map[string]any{"variants": []string{u}})
	}
	core.Explore(c, "many different", fmt.Sprintf("N different urlMentions or linkSet requests, then the same ones again in the same or reversed order, one by one and at once, N of %v; reference: the reply to the first one alone with the number in the URL and of the line exchanged", sizes), func(yield func(many) bool) {
		for _, n := range sizes {
			for _, m := range []string{"lockstep", "burst"} {
				for _, k := range []string{"urlMentions", "linkSet"} {
					for _, o := range []string{"same", "reversed"} {
						if !yield(many{m, k, o, n}) {
							return
						}
					}
				}
			}
		}
	}, func(w *core.Worker, x many) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var text strings.Builder
		var seq []int
		for i := 0; i < x.N; i++ {
			fmt.Fprintf(&text, "[[mid:%05d]]\n", i)
			seq = append(seq, i)
		}
		for i := 0; i < x.N; i++ {
			if x.Order == "same" {
				seq = append(seq, i)
			} else {
				seq = append(seq, x.N-1-i)
			}
		}
		drv.WriteFile(dir+"/m.org", text.String())
		r := backend(w, dir, "-log", "", "-org", "m.org")
		key := fmt.Sprint("many:", x.Mode, x.Method, x.Order, x.N)
		s, bad, err := drv.Burst(r, body(x, 1, 0))
		if err != nil || bad != "" || s.Get(1) == nil || !s.Get(1).OK() {
			if err == nil && bad == "" {
				bad = "no result: " + drv.Short(s.Done.String(), 600)
			}
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		first := drv.ReplyKey(s.Get(1))
		var bodies [][]byte
		for id, i := range seq {
			bodies = append(bodies, body(x, id, i))
		}
		f := drv.Burst
		if x.Mode == "lockstep" {
			f = drv.Lockstep
		}
		s, bad, err = f(r, bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Count("replies_compared", len(seq))
			c.Distinct(key)
		}
		for id, i := range seq {
			want := strings.ReplaceAll(first, "mid:00000", fmt.Sprintf("mid:%05d", i))
			want = strings.ReplaceAll(want, `"lineNo":1,`, fmt.Sprintf(`"lineNo":%d,`, i+1))
			want = strings.ReplaceAll(want, `"lineNo":1}`, fmt.Sprintf(`"lineNo":%d}`, i+1))
			if got := drv.ReplyKey(s.Get(id)); got != want {
				return core.Bad(key, "%+v: reply %d, to a request for mid:%05d, depends on history:\n got %s\nwant %s", x, id, i, drv.Short(got, 900), drv.Short(want, 900))
			}
		}
		return core.Out{}
	})
}

// c09universe: requests which look alike, for stale or confused memory.
func c09universe() []histReq {
	var l []histReq
	add := func(name string, v any) {
		js, _ := json.Marshal([]any{v})
		l = append(l, histReq{name, string(js)})
	}
	lists := [][]string{{"mid:1"}, {"mid:2"}, {"mid:1", "mid:2"}, {"mid:2", "mid:1"}, {"mid:1", "mid:1"}, {"", "mid:1"}, {""}, {}, {"mid:12"}, {"mid:1", "2"}, {"mid:1/"}, {"mid:1#"}, {"mid:1?"},
		{"MID:1"}, {"Mid:1"}, {"http://h.org/x"}, {"https://h.org/x"}, {"http://h.org/x/"}, {"http://h.org/x", "mid:1"}, {"http://h.org/"}, {"http://h.org/X"}, {"mid:1", "http://h.org/x"}}
	for _, sep := range []string{" ", ",", ", ", "\t", ";", "|", "\"", "\" \"", "\",\"", "'", ":", "/", "#", "&", "?", "\x00", "\n", "-", "+", "=", "] [", "%20"} {
		lists = append(lists, []string{"mid:1" + sep + "mid:2"})
	}
	for _, v := range lists {
		add("linkremark.urlMentions", map[string]any{"variants": v})
	}
	for _, v := range [][]string{{"mid:1"}, {"mid:1 mid:2"}, {"mid:1", "mid:2"}, {"http://h.org/x"}, {"mid:none"}} {
		for _, n := range []int{-1, 0, 1, 2, 3, 7, 8, 9, 100} {
			add("burl.urlMentions", map[string]any{"variants": v, "options": map[string]any{"countLimit": n}})
		}
		add("burl.urlMentions", map[string]any{"variants": v, "options": map[string]any{}})
		add("burl.urlMentions", map[string]any{"variants": v, "options": nil})
	}
	for _, v := range [][]string{{"mid"}, {"http", "https"}, {"https", "http"}, {"http:"}, {"mid:1"}, {"mid:2"}, {"mid:1", "mid:2"}, {"mid:1|mid:2"}, {"mid:1,mid:2"}, {"mid:1 mid:2"}, {"MID"}, {"foo"}, {"foo:", "mid"}, {}, {""}, {"bad prefix"}, {"mid", ""}, {"http://h.org/x"}, {"http://h.org/"}, {"mid", "mid"}, {"mid", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}} {
		add("linkremark.linkSet", map[string]any{"prefix": v})
	}
	for _, v := range []string{"0.1", "0.2", ""} {
		add("hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": v}}, "version": "1"})
	}
	add("linkremark.visit", map[string]any{"file": "/nonexistent"})
	add("burl.capture", map[string]any{"format": "org-protocol", "version": "0.2", "error": "x", "data": map[string]any{"url": "org-protocol:/x"}})
	add("burl.capture", map[string]any{"format": "org-protocol", "version": "0.2", "data": map[string]any{"url": "mid:1"}})
	add("burl.nothing", 1)
	l = append(l, histReq{"linkremark.urlMentions", "[1]"}, histReq{"linkremark.linkSet", "[]"})
	return l
}

func c09pairs(c *core.Ctx) {
	reqs := c09universe()
	base := c.Scratch + "/c09p"
	mkdir(base)
	seps := []string{" ", ",", ", ", ";", "|", "\"", "'", "&", "?", "-", "+", "=", "%20"}
	text := "mid:1\n* A\nmid:1 mid:2\n[[mid:12]] [[http://h.org/x][d]] [[foo:b][c]]\n** B\n"
	for _, s := range seps {
		text += "[[mid:1" + s + "mid:2]]\n"
	}
	text += "* C\nhttps://h.org/x/ mid:1/ mid:1 [[mid:1#]]\n* D\n[[mid:1][z]] [[mid:1][y]] http://h.org/X mid:2\n"
	args := []string{"-log", ""}
	for i, t := range []string{text, "* E\n[[mid:1]]\n"} {
		p := fmt.Sprintf("%s/%d.org", base, i)
		drv.WriteFile(p, t)
		args = append(args, "-org", p)
	}
	args = append(args, "-txt", base+"/1.org")
	be := func(w *core.Worker) drv.Run { return backend(w, base, args...) }
	type ref struct{ key, bad string }
	alone := make([]ref, len(reqs))
	core.Explore(c, "references", fmt.Sprintf("replies to %d look-alike requests, each in a session of its own", len(reqs)), func(yield func(int) bool) {
		for i := range reqs {
			if !yield(i) {
				return
			}
		}
	}, func(w *core.Worker, i int) core.Out {
		s, bad, err := drv.Burst(be(w), reqs[i].body(1))
		if err != nil || bad != "" || s.Get(1) == nil {
			if err == nil && bad == "" {
				bad = "no single reply: " + drv.Short(s.Done.String(), 600)
			}
			return core.Out{Err: err, Viol: bad, Key: fmt.Sprint("alone", reqs[i])}
		}
		alone[i] = ref{key: drv.ReplyKey(s.Get(1))}
		return core.Out{}
	})
	if c.ReplayCase != nil {
		w := &core.Worker{C: c}
		for i := range reqs {
			if s, _, err := drv.Burst(be(w), reqs[i].body(1)); err == nil && s.Get(1) != nil {
				alone[i] = ref{key: drv.ReplyKey(s.Get(1))}
			}
		}
	}
	type pairs struct {
		Mode string
		P    int
		Q    []int
	}
	core.Explore(c, "pairs", fmt.Sprintf("every ordered pair of %d look-alike requests adjacent in some session: p q1 p q2 ... for every p, one by one and (by 20) at once", len(reqs)), func(yield func(pairs) bool) {
		for p := range reqs {
			var all []int
			for q := range reqs {
				all = append(all, q)
			}
			if !yield(pairs{"lockstep", p, all}) {
				return
			}
			for b := range core.Batch(core.Slice(all), 20) {
				if !yield(pairs{"burst", p, b}) {
					return
				}
			}
			// the first query matters most
			for q := range reqs {
				if !c.Thorough() && (p*len(reqs)+q)%7 != 0 {
					continue
				}
				if !yield(pairs{"lockstep", p, []int{q}}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x pairs) core.Out {
		var bodies [][]byte
		var seq []int
		for _, q := range x.Q {
			seq = append(seq, x.P, q)
		}
		for i, q := range seq {
			bodies = append(bodies, reqs[q].body(i))
		}
		f := drv.Burst
		if x.Mode == "lockstep" {
			f = drv.Lockstep
		}
		s, bad, err := f(be(w), bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: "history"}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Count("replies_compared", len(seq))
			c.Distinct(x.Mode + fmt.Sprint(seq))
		}
		for i, q := range seq {
			if got := drv.ReplyKey(s.Get(i)); got != alone[q].key {
				prev := "nothing"
				if i > 0 {
					prev = reqs[seq[i-1]].Name + reqs[seq[i-1]].Params
				}
				return core.Bad(fmt.Sprint("pairs:", x.Mode, x.P, q), "%s: reply to %s%s after %s depends on history:\n got %s\nalone %s", x.Mode, reqs[q].Name, reqs[q].Params, prev, drv.Short(got, 1500), drv.Short(alone[q].key, 1500))
			}
		}
		return core.Out{}
	})
}
