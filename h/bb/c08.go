package main

import (
	"fmt"
	"math"

	"verif/core"
	"verif/drv"
)

// c08: trimming by countLimit. Documents of one batch use disjoint URL sets,
// so one backend answers for many trees.

// shape of a section: own links (list of URL numbers) and subsections.
type shape struct {
	Links []int
	Subs  []shape
}

func (s shape) count() int {
	n := len(s.Links)
	for _, x := range s.Subs {
		n += x.count()
	}
	return n
}

type limCase struct {
	Groups [][]shape // each group is a set of files queried together
}

func c08emit(o *orgBuilder, s shape, level int, url func(int) string) {
	for _, k := range s.Links {
		o.Line("- [["+url(k)+"]]", drv.Lnk{URL: url(k)})
	}
	for i, x := range s.Subs {
		o.Heading(level+1, " ", fmt.Sprintf("L%d.%d", level, i), "")
		c08emit(o, x, level+1, url)
	}
}

type limVal struct {
	v    any // JSON value of options
	n    int
	none bool
}

func intLimit(n int) limVal { return limVal{v: n, n: n} }

func c08limits(total int) (r []limVal) {
	r = append(r, limVal{none: true, n: 8})
	for _, n := range []int{-1, -2, -8, math.MinInt64, math.MinInt64 + 1, math.MinInt32, math.MaxInt32, math.MaxInt64, math.MaxInt64/2 + 1, math.MaxInt64 / 3, 1 << 33} {
		r = append(r, intLimit(n))
	}
	for n := 0; n <= total+2; n++ {
		r = append(r, intLimit(n))
	}
	return
}

// c08verify checks all claims about one reply.
func c08verify(raw []byte, secs []*drv.Sec, match func(string) bool, limit int) string {
	got, err := drv.ParseTree(raw)
	if err != nil {
		return err.Error()
	}
	files, err := got.Files()
	if err != nil {
		return err.Error()
	}
	// unlimited result
	var want []*drv.Node
	total, distinct := 0, 0
	for _, s := range secs {
		if e := s.Expect(match); e != nil {
			want = append(want, e)
			total += e.Total
			distinct += e.Filtered
		}
	}
	if got.Total != total {
		return fmt.Sprintf("root total %d, expected %d", got.Total, total)
	}
	shown := 0
	var walk func(g, e *drv.Node) string
	walk = func(g, e *drv.Node) string {
		if g.Type != e.Type || g.Path != e.Path || g.Text != e.Text || g.Line != e.Line {
			return fmt.Sprintf("node mismatch got %s expected %s", g.Dump(true), e.Dump(true))
		}
		if g.Total != e.Total {
			return fmt.Sprintf("total changed by limit: got\n%sunlimited\n%s", g.Dump(true), e.Dump(true))
		}
		n := len(g.Links)
		// links: subsequence of unlimited distinct ones
		j := 0
		for _, l := range g.Links {
			for j < len(e.Links) && e.Links[j] != l {
				j++
			}
			if j == len(e.Links) {
				return fmt.Sprintf("link %v is not a match here or is out of order:\n%s", l, e.Dump(true))
			}
			j++
		}
		j = 0
		for _, c := range g.Children {
			for j < len(e.Children) && !(e.Children[j].Type == c.Type && e.Children[j].Path == c.Path && e.Children[j].Line == c.Line) {
				j++
			}
			if j == len(e.Children) {
				return fmt.Sprintf("node is unexpected or out of order:\n%sin\n%s", c.Dump(true), e.Dump(true))
			}
			before := shown
			if s := walk(c, e.Children[j]); s != "" {
				return s
			}
			n += shown - before
			j++
		}
		shown += len(g.Links)
		if g.Filtered != n {
			return fmt.Sprintf("filtered is %d but %d links are present:\n%s", g.Filtered, n, g.Dump(true))
		}
		return ""
	}
	j := 0
	for _, f := range files {
		for j < len(want) && want[j].Path != f.Path {
			j++
		}
		if j == len(want) {
			return "file is unexpected or out of order: " + f.Path
		}
		if s := walk(f, want[j]); s != "" {
			return s
		}
		j++
	}
	if got.Filtered != shown {
		return fmt.Sprintf("root filtered %d but %d links are present", got.Filtered, shown)
	}
	if limit < 0 {
		limit = 0
	}
	if shown > limit {
		return fmt.Sprintf("%d links shown for limit %d:\n%s", shown, limit, got.Dump(true))
	}
	if limit >= 1 && total > 0 && shown == 0 {
		return fmt.Sprintf("no links for limit %d though there are %d matches", limit, total)
	}
	if limit >= total && shown != distinct {
		return fmt.Sprintf("limit %d, matches %d: only %d of %d distinct links:\n%s", limit, total, shown, distinct, got.Dump(true))
	}
	return ""
}

func c08run(w *core.Worker, x limCase) core.Out { return c08do(w, x, c08limits) }

func c08do(w *core.Worker, x limCase, limits func(total int) []limVal) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	var docs []*Doc
	var groups [][]*drv.Sec
	var variants [][]string
	for g, files := range x.Groups {
		url := func(k int) string { return fmt.Sprintf("http://g%d.org/u%d", g, k) }
		max := 0
		var secs []*drv.Sec
		for _, f := range files {
			o := newOrg("")
			c08emit(o, f, 0, url)
			d := o.Doc(true)
			docs = append(docs, d)
			secs = append(secs, d.Sec)
			var rec func(s shape)
			rec = func(s shape) {
				for _, k := range s.Links {
					if k+1 > max {
						max = k + 1
					}
				}
				for _, y := range s.Subs {
					rec(y)
				}
			}
			rec(f)
		}
		var v []string
		for k := 0; k < max; k++ {
			v = append(v, url(k))
		}
		groups = append(groups, secs)
		variants = append(variants, v)
	}
	args := writeDocs(dir, docs)
	type ref struct {
		g   int
		lim limVal
	}
	var refs []ref
	var bodies [][]byte
	for g := range groups {
		if len(variants[g]) == 0 {
			continue
		}
		total := 0
		for _, f := range x.Groups[g] {
			total += f.count()
		}
		for _, l := range limits(total) {
			var v any
			if !l.none {
				v = l.v
			}
			bodies = append(bodies, mentions(len(refs), variants[g], v))
			refs = append(refs, ref{g, l})
		}
	}
	if len(bodies) == 0 {
		return core.Out{}
	}
	s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
	if err != nil {
		return core.Out{Err: err}
	}
	out := func(g int, format string, a ...any) core.Out {
		key := fmt.Sprintf("limit:%v", x.Groups[g])
		if len(key) > 1000 {
			key = "limit:" + core.ShortHash(key)
		}
		o := core.Bad(key, format, a...)
		if len(x.Groups) > 1 {
			o.Min = limCase{x.Groups[g : g+1]}
		}
		return o
	}
	if bad != "" {
		// find the culprit
		if len(x.Groups) > 1 && !s.Done.Hang {
			for g := range x.Groups {
				if o := c08do(w, limCase{x.Groups[g : g+1]}, limits); o.Viol != "" {
					o.Min = limCase{x.Groups[g : g+1]}
					return o
				}
			}
		}
		return core.Bad("limit:"+core.ShortHash(bad), "%s", bad)
	}
	for i, r := range refs {
		rep := s.Get(i)
		if rep == nil {
			return out(r.g, "limit %v: no single reply", r.lim)
		}
		if !rep.OK() {
			return out(r.g, "limit %v: error %v", r.lim, rep.Error)
		}
		w.C.Count("replies_checked", 1)
		if bad := c08verify(rep.Result, groups[r.g], matcher(variants[r.g]...), r.lim.n); bad != "" {
			return out(r.g, "countLimit %d (default %v), links %v: %s", r.lim.n, r.lim.none, drv.Short(fmt.Sprint(x.Groups[r.g]), 1000), drv.Short(bad, 3000))
		}
	}
	return core.Out{}
}

func c08(c *core.Ctx) {
	c.Rule("a case is a set of Org files given by a tree of sections with multisets of links; every count limit from -2 to matches+2, extreme integers and no options are tried; each reply is compared node by node with the unlimited model; non-trivial: distinct trees with at least 2 links")
	ex := func(space, bounds string, groups func(func([]shape) bool)) {
		core.Explore(c, space, bounds, core.Map(core.Batch(groups, 40), func(g [][]shape) limCase { return limCase{g} }),
			func(w *core.Worker, x limCase) core.Out {
				if c.ReplayCase == nil {
					for _, g := range x.Groups {
						n := 0
						for _, f := range g {
							n += f.count()
						}
						if n >= 2 {
							c.Distinct(fmt.Sprint(g))
						}
						c.Count("evaluations", 1)
					}
				}
				return c08run(w, x)
			})
	}
	// leaf link lists: distinct URLs, repeated URLs
	leaf := func(n, dup int) (r []int) { // n occurrences, first dup+1 of them are the same URL
		for i := 0; i < n; i++ {
			if i <= dup {
				r = append(r, 0)
			} else {
				r = append(r, i)
			}
		}
		return
	}
	var leaves [][]int
	for n := 0; n <= 4; n++ {
		for d := 0; d < n || d == 0; d++ {
			leaves = append(leaves, leaf(n, d))
		}
	}
	leaves = append(leaves, []int{1, 0, 1}, []int{0, 1, 1, 2, 0})
	// flat: own links and up to 3 headings
	ex("flat", fmt.Sprintf("one file: own links + 3 headings, each out of %d link lists", len(leaves)), func(yield func([]shape) bool) {
		for p := range core.Product(len(leaves), len(leaves), len(leaves), core.Pick(c, 4, len(leaves))) {
			f := shape{Links: leaves[p[3]]}
			for _, k := range p[:3] {
				f.Subs = append(f.Subs, shape{Links: leaves[k]})
			}
			if !yield([]shape{f}) {
				return
			}
		}
	})
	// nested: tree of depth 3
	counts := []int{0, 1, 2, 5}
	ex("nested", "one file: sections a, a/b, a/b/c, a/d, e with 0,1,2,5 links each", func(yield func([]shape) bool) {
		for p := range core.Product(4, 4, 4, 4, 4) {
			l := func(i int) []int { return leaf(counts[p[i]], 0) }
			f := shape{Subs: []shape{
				{Links: l(0), Subs: []shape{{Links: l(1), Subs: []shape{{Links: l(2)}}}, {Links: l(3)}}},
				{Links: l(4)},
			}}
			if !yield([]shape{f}) {
				return
			}
		}
	})
	// several files
	ex("files", "1..3 files, each with own links and one heading out of 0,1,2,7 links", func(yield func([]shape) bool) {
		cs := []int{0, 1, 2, 7}
		for n := 1; n <= 3; n++ {
			dims := make([]int, 2*n)
			for i := range dims {
				dims[i] = 4
			}
			for p := range core.Product(dims...) {
				var g []shape
				for i := 0; i < n; i++ {
					g = append(g, shape{Links: leaf(cs[p[2*i]], 0), Subs: []shape{{Links: leaf(cs[p[2*i+1]], p[2*i]&1)}}})
				}
				if !yield(g) {
					return
				}
			}
		}
	})
	// skewed distributions: many small children next to big ones
	ex("skewed", "1..6 headings with link counts out of 1,3,20 and a list of 100 repeated links", func(yield func([]shape) bool) {
		sizes := []int{1, 3, 20}
		for n := 1; n <= core.Pick(c, 5, 6); n++ {
			dims := make([]int, n)
			for i := range dims {
				dims[i] = len(sizes) + 1
			}
			for p := range core.Product(dims...) {
				if c.Tier == "quick" && n == 5 && p[0] != 0 && p[4] != 3 {
					continue
				}
				f := shape{}
				for _, k := range p {
					if k == len(sizes) {
						f.Subs = append(f.Subs, shape{Links: leaf(30, 27)})
					} else {
						f.Subs = append(f.Subs, shape{Links: leaf(sizes[k], 0)})
					}
				}
				if !yield([]shape{f}) {
					return
				}
			}
		}
	})
	c08scale(c)
	c.Sample(shape{Links: leaves[3], Subs: []shape{{Links: leaves[5]}}})
	// values that are not integers: an error reply, the session goes on
	vals := []string{"9223372036854775808", "-9223372036854775809", "1e3", "1.5", "\"8\"", "true", "[]", "{}", "null", "0", "-0", "8", "", "8,\"other\":0"}
	core.Explore(c, "odd-values", "countLimit values that are not integers, null or absent", core.Slice(vals), func(w *core.Worker, v string) core.Out {
		c.Count("evaluations", 1)
		dir := w.Fresh()
		defer rm(dir)
		d := newOrg("")
		d.Line("http://g0.org/u0", drv.Lnk{URL: "http://g0.org/u0"})
		for i := 0; i < 12; i++ {
			d.Heading(1, " ", fmt.Sprint("h", i), "")
			d.Line("http://g0.org/u0", drv.Lnk{URL: "http://g0.org/u0"})
		}
		doc := d.Doc(true)
		args := writeDocs(dir, []*Doc{doc})
		opts := `{"countLimit":` + v + `}`
		if v == "" {
			opts = "{}"
		}
		body := []byte(`{"id":1,"method":"linkremark.urlMentions","params":[{"variants":["http://g0.org/u0"],"options":` + opts + `}]}`)
		s, bad, err := drv.Burst(backend(w, dir, args...), body, mentions(2, []string{"http://g0.org/u0"}, nil))
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: "odd:" + v}
		}
		r := s.Get(1)
		if r == nil {
			return core.Bad("odd:"+v, "countLimit %s: no reply: %s", v, s.Done)
		}
		want := map[string]int{"null": 8, "": 8, "0": 0, "-0": 0, "8": 8, "8,\"other\":0": 8}
		if r.OK() {
			n, ok := want[v]
			if !ok {
				return core.Out{}
			}
			if bad := c08verify(r.Result, []*drv.Sec{doc.Sec}, matcher("http://g0.org/u0"), n); bad != "" {
				return core.Bad("odd:"+v, "countLimit %s: %s", v, bad)
			}
		} else if _, ok := want[v]; ok {
			return core.Bad("odd:"+v, "countLimit %s: error %v", v, r.Error)
		}
		r = s.Get(2)
		if r == nil || !r.OK() {
			return core.Bad("odd:"+v, "after countLimit %s: no reply to the next query", v)
		}
		if bad := c08verify(r.Result, []*drv.Sec{doc.Sec}, matcher("http://g0.org/u0"), 8); bad != "" {
			return core.Bad("odd:"+v, "default after countLimit %s: %s", v, bad)
		}
		return core.Out{}
	})
}

// bigLim: a tree of N links or sections.
type bigLim struct {
	Kind string
	N    int
}

func (x bigLim) files() []shape {
	run := func(n, of int) (l []int) {
		for i := 0; i < n; i++ {
			l = append(l, i%of)
		}
		return
	}
	n := x.N
	switch x.Kind {
	case "one url":
		return []shape{{Links: run(n, 1)}}
	case "two files":
		return []shape{{Links: run(n, 1)}, {Links: run(n/2+1, 2)}}
	case "sections":
		return []shape{{Links: []int{0}, Subs: []shape{{Links: run(n, 1)}, {Links: []int{1}}, {Subs: []shape{{Links: run(n/3+1, 2)}, {Links: run(n, 3)}}}}}}
	case "twice": // the whole list of different links is repeated
		return []shape{{Links: append(run(n, n), run(n, n)...)}}
	case "children":
		var s shape
		for i := 0; i < n; i++ {
			s.Subs = append(s.Subs, shape{Links: []int{i % 2}})
		}
		return []shape{s}
	case "mixed children":
		var s shape
		for i := 0; i < n; i++ {
			s.Subs = append(s.Subs, shape{Links: run(i*7%5+1, 4)})
		}
		return []shape{s, {Links: []int{0, 0}}}
	case "files":
		var l []shape
		for i := 0; i < n; i++ {
			l = append(l, shape{Links: run(i%3+1, 2)})
		}
		return l
	case "depth":
		s := shape{Links: []int{0}}
		for i := 0; i < n; i++ {
			s = shape{Links: []int{i % 2, 0}, Subs: []shape{s}}
		}
		return []shape{s}
	}
	panic(x.Kind)
}

func c08scale(c *core.Ctx) {
	ns := scaleN(core.Pick(c, 513, 2000))
	core.Explore(c, "scale", fmt.Sprintf("N repetitions of a link (also up to %d, in a section, several ones or files), N different links twice, N sections, N files (at most 129), N levels, N of %v; limits 0, 1, 2, N/2, N-1..N+1, matches-1..matches+1, 2^31-1, 2^31, 2^63-1", core.Pick(c, 70000, 300000), ns), func(yield func(bigLim) bool) {
		top := []int{4095, 10000, 32768, 46342, 65535, 65537, 70000}
		if c.Tier != "quick" {
			top = append(top, 131073, 300000)
		}
		for _, k := range []string{"one url", "two files", "sections"} {
			for _, n := range top {
				if !yield(bigLim{k, n}) {
					return
				}
			}
		}
		for _, k := range []string{"one url", "two files", "sections", "twice", "children", "mixed children", "files", "depth"} {
			for _, n := range ns {
				if k == "files" && n > 129 {
					continue
				}
				if !yield(bigLim{k, n}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x bigLim) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		g := x.files()
		o := c08do(w, limCase{[][]shape{g}}, func(total int) (l []limVal) {
			l = append(l, limVal{none: true, n: 8})
			seen := map[int]bool{}
			for _, n := range []int{0, 1, 2, x.N / 2, x.N - 1, x.N, x.N + 1, total - 1, total, total + 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64} {
				if !seen[n] && n >= 0 {
					seen[n] = true
					l = append(l, intLimit(n))
				}
			}
			return
		})
		o.Min = nil
		if o.Viol != "" {
			o.Key = fmt.Sprintf("scale:%v", x)
			o.Viol = fmt.Sprintf("%+v: %s", x, o.Viol)
		}
		return o
	})
}
