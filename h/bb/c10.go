package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/core"
	"verif/drv"
)

type eqCase struct {
	Recorded []string
	Queries  []string
}

// linksOf collects (distinct) URLs of a reply.
func linksOf(raw []byte) (map[string]int, error) {
	n, err := drv.ParseTree(raw)
	if err != nil {
		return nil, err
	}
	r := map[string]int{}
	var rec func(n *drv.Node)
	rec = func(n *drv.Node) {
		for _, l := range n.Links {
			r[l.URL]++
		}
		for _, c := range n.Children {
			rec(c)
		}
	}
	rec(n)
	return r, nil
}

func keys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func c10run(w *core.Worker, x eqCase) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	var b strings.Builder
	for _, r := range x.Recorded {
		b.WriteString("[[" + r + "]]\n")
	}
	p := dir + "/n.org"
	drv.WriteFile(p, b.String())
	var bodies [][]byte
	for i, q := range x.Queries {
		bodies = append(bodies, mentions(i, []string{q}, big))
	}
	s, bad, err := drv.Burst(backend(w, dir, "-org", p, "-scheme", "ftp", "-scheme", "HTTP", "-scheme", "x", "-scheme", "httpss"), bodies...)
	if err != nil || bad != "" {
		return core.Out{Err: err, Viol: bad, Key: "eq"}
	}
	index := map[string]bool{}
	for _, r := range x.Recorded {
		index[r] = true
	}
	for i, q := range x.Queries {
		r := s.Get(i)
		if q == "" {
			if r == nil || r.OK() {
				return core.Bad("eq-empty", "query with no URL is not refused")
			}
			continue
		}
		if r == nil || !r.OK() {
			return core.Bad("eq:"+q, "query %q: no result", q)
		}
		got, err := linksOf(r.Result)
		if err != nil {
			return core.Bad("eq:"+q, "query %q: %v", q, err)
		}
		w.C.Count("pairs", len(x.Recorded))
		want := map[string]int{}
		// candidates: every prefix of both spellings
		alts := []string{q}
		if strings.HasPrefix(q, "http:") {
			alts = append(alts, "https:"+q[5:])
		} else if strings.HasPrefix(q, "https:") {
			alts = append(alts, "http:"+q[6:])
		}
		for _, a := range alts {
			for n := 0; n <= len(a); n++ {
				if index[a[:n]] && equivalent(q, a[:n]) {
					want[a[:n]] = 1
				}
			}
		}
		if a, b := keys(got), keys(want); fmt.Sprint(a) != fmt.Sprint(b) {
			o := core.Bad("eq:"+q, "query %q: reported %q, equivalent recorded %q", q, a, b)
			if len(x.Queries) > 1 {
				rec := map[string]int{}
				for _, u := range append(a, b...) {
					rec[u] = 1
				}
				o.Min = eqCase{keys(rec), []string{q}}
			}
			return o
		}
		w.C.Distinct(fmt.Sprint(len(want)) + tailRe.FindString(q) + q)
	}
	return core.Out{}
}

func c10(c *core.Ctx) {
	c.Rule("all pairs (queried URL, recorded URL) built of bases and all tails over a small alphabet; the set of reported URLs is compared with the definition; non-trivial: distinct queried URLs")
	c.Assume("recorded URLs are bracket links of one Org file; URLs are valid UTF-8 without brackets and line breaks")
	alpha := []string{"/", "?", "&", "#", "a"}
	if c.Thorough() {
		alpha = append(alpha, "=", "é")
	}
	n := core.Pick(c, 6, 6)
	var tails []string
	for wd := range core.Words(len(alpha), 0, n) {
		t := ""
		for _, k := range wd {
			t += alpha[k]
		}
		tails = append(tails, t)
	}
	c.Sample(tails[len(tails)-1])
	bases := []string{"http://h", "https://h", "http:", "ftp://h"}
	for _, b := range bases {
		var rec []string
		for _, rb := range []string{b, swap(b)} {
			if rb == "" {
				continue
			}
			for _, t := range tails {
				if !strings.HasSuffix(rb+t, "\\") {
					rec = append(rec, rb+t)
				}
			}
		}
		var qs []string
		for _, t := range tails {
			qs = append(qs, b+t)
		}
		core.Explore(c, "tails "+b, fmt.Sprintf("base %s (and the other scheme) x all tails of length <= %d over %q, all pairs", b, n, alpha),
			core.Map(core.Batch(core.Slice(qs), 400), func(q []string) eqCase { return eqCase{rec, q} }),
			func(w *core.Worker, x eqCase) core.Out {
				if c.ReplayCase == nil {
					c.Count("evaluations", len(x.Queries))
				}
				return c10run(w, x)
			})
	}
	// scheme and host variations: nothing else is equivalent
	var all []string
	for _, s := range []string{"http:", "https:", "HTTP:", "ftp:", "x:", "mid:", "doi:", "httpss:", "http:http:", "https:http:"} {
		for _, r := range []string{"//h.org", "//H.org", "//www.h.org", "//h.org/p", "//h.org/P", "//h.org/p?q", "//h.org/p?q=1&", "//h.org/p?q=1&a=2", "//h.org/p?a=2&q=1",
			"//h.org/p/?q", "//h.org/p#f", "//h.org/p/#f", "//h.org/p%20", "//h.org/p ", "//h.org:80/p", "//h.org:443/p", "//u@h.org/p", "//h.org//p", "//h.org/./p", "h.org/p", "/h.org/p",
			"//h.org/http://h.org/", "//h.org/https://h.org", "//h.org/\u00e9", "//h.org/e\u0301", "//h.org/\u00e9/", "//h.org/\U0001F600/?#", "//h.org/p??", "//h.org/p##", "//h.org/p?#&", "//h.org/p#?", "//h.org/p&", "//h.org/p&&?&&##", "//h.org/p///?&&&#",
			"//h.org:80", "//h.org:80/", "//h.org:443", "//h.org:443/", "//h.org:", "//www.h.org", "//www.h.org/p", "//m.h.org/p", "//h.org./p", "//h.org.", "//h.org/index.html", "//h.org/p/index.html", "//h.org/p/index.htm", "//h.org/p.html",
			"//h.org/p;", "//h.org/p.", "//h.org/p,", "//h.org/p:", "//h.org/p!", "//h.org/p)", "//h.org/p%", "//h.org/p%2F", "//h.org/p%2f", "//h.org/p/.", "//h.org/p/..", "//h.org/p+x", "//h.org/p%20x", "//h.org/p x", "//h.org/~u", "//h.org/%7Eu", "//h.org/%7eu",
			"//h.org/p?utm_source=x", "//h.org/p#:~:text=x", "//h.org/p#!", "//h.org/#!/p", "//h.org/p?=", "//h.org/p?&=", "//h.org/p&amp;", "//h.org/p?q=", "//h.org/p\\", "//h.org\\p", "//h.org/p\t", "//h.org/p?q&", "//h.org/p?q#", "//h.org/p?q/"} {
			all = append(all, s+r)
		}
	}
	q := append([]string{"", "h.org/p", "//h.org/p", "http", "http:", "https:", "http:/", "/", "#", "?&#", "a", "é/"}, all...)
	core.Explore(c, "spellings", fmt.Sprintf("%d queries x %d recorded URLs", len(q), len(all)), core.Map(core.Batch(core.Slice(q), 50), func(b []string) eqCase { return eqCase{all, b} }),
		func(w *core.Worker, x eqCase) core.Out {
			if c.ReplayCase == nil {
				c.Count("evaluations", len(x.Queries))
			}
			return c10run(w, x)
		})
	c10scale(c)
}

func swap(b string) string {
	if strings.HasPrefix(b, "http:") {
		return "https:" + b[5:]
	}
	if strings.HasPrefix(b, "https:") {
		return "http:" + b[6:]
	}
	return ""
}
