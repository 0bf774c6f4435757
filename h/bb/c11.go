package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verif/core"
	"verif/drv"
)

// recorded links: URL and the line of text that holds it
type rec struct{ url, text string }

func c11org() []rec {
	plain := []string{"http://a.b/c", "http://a.b/cd", "http://a.b/", "https://a.b/c", "https://a.b/w_(x)", "mid:ab", "mid:abc", "mid:b.c@d.e", "news:xy", "news:xyz",
		"h2o:ab", "x-y+z:zz", "HTTP://a.b/c", "http://aXb/c", "http://a.b/?q=https://n.n/est", "http://a.b/mid:nest", "mid:a+b*c$d", "mid:a|b", "mid:a^b", "doi:10.1/x", "http://a.b/\u00e9\u00e8"}
	var r []rec
	for i, u := range plain {
		t := []string{u, "- " + u + ", x", "(" + u + ")", "\"" + u + "\" w", "| " + u + " |", u + "."}[i%6]
		r = append(r, rec{u, t})
	}
	for _, u := range []string{"http://angle.b/c", "http://angle.b/c d.", "mid:ang", "mid:angle", "news:angle?", "https://angle.b/(", "https:angle", "http:"} {
		r = append(r, rec{u, "x <" + u + "> y"})
	}
	for _, u := range []string{"http://bracket.b/c", "http://bracket.b/c d.", "mid:b", "mid:", "news:bracket?", "https://bracket.b/(", "http://bracket.b/<x>", "doi:", "https:bracket*"} {
		r = append(r, rec{u, "y [[" + u + "]] z"})
		r = append(r, rec{u, "[[" + u + "][d https://desc.r/x mid:descr]] z"})
	}
	// repeated in several forms
	r = append(r, rec{"http://a.b/c", "<http://a.b/c> [[http://a.b/c][x]] http://a.b/c"})
	// not links
	for _, t := range []string{"[[file:http://no.no/x]]", "[[*http://no.no/x]]", "xhttp://no.no/x", "http_://no.no", "http //no.no/x", "mid :no", "* http", "[[id:mid:no]]", "[[file:a][mid:no-descr]]", "http:"} {
		r = append(r, rec{"", t})
	}
	return r
}

func c11txt() []rec {
	var r []rec
	for _, x := range c11org() {
		if strings.HasPrefix(x.text, "[[") || strings.Contains(x.text, " [[") || strings.Contains(x.text, " <") {
			continue
		}
		if strings.Contains(x.text, "no.no") && strings.Contains(x.text, "[[") {
			continue
		}
		x.url = strings.Replace(x.url, "a.b", "t.xt", 1)
		x.text = strings.Replace(x.text, "a.b", "t.xt", 1)
		r = append(r, x)
	}
	r = append(r, rec{"http://t.xt/angle", "<http://t.xt/angle>"}, rec{"http://t.xt/bracket", "[[http://t.xt/bracket]]"})
	return r
}

type setCase struct {
	Config string     // org txt both none disabled
	Sets   [][]string // prefixes of every request
	Doc    []int      `json:",omitempty"` // indices of leading and trailing contexts, separators
}

func validPrefix(p string) bool {
	scheme, _, colon := strings.Cut(p, ":")
	if strings.Contains(p, "\n") {
		return false
	}
	_ = colon
	if scheme == "" {
		return false
	}
	alnum := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	if b := scheme[0]; b >= '0' && b <= '9' || !alnum(b) {
		return false
	}
	for i := 1; i < len(scheme); i++ {
		if alnum(scheme[i]) {
			continue
		}
		if (scheme[i] == '-' || scheme[i] == '+') && i+1 < len(scheme) && alnum(scheme[i+1]) && alnum(scheme[i-1]) {
			continue
		}
		return false
	}
	return true
}

func c11run(w *core.Worker, x setCase) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	write := func(name string, r []rec) string {
		var b strings.Builder
		for _, e := range r {
			b.WriteString(e.text + "\n")
		}
		drv.WriteFile(dir+"/"+name, b.String())
		return dir + "/" + name
	}
	var all []rec
	var args []string
	switch x.Config {
	case "org", "disabled":
		all = c11org()
		args = []string{"-org", write("a.org", all)}
	case "context":
		for _, t := range orgToks {
			all = append(all, rec{t.url, leads[x.Doc[0]] + t.text + trails[x.Doc[1]]})
		}
		args = []string{"-org", write("a.org", all)}
	case "line":
		// pairs of tokens in one line
		t := orgToks[x.Doc[0]]
		for _, u := range orgToks {
			all = append(all, rec{t.url, t.text + []string{" ", ", ", "\t- "}[x.Doc[1]] + u.text}, rec{u.url, ""})
		}
		args = []string{"-org", write("a.org", all)}
	case "long line":
		// Doc: number of links, form, kind of file
		var l []string
		for i := 0; i < x.Doc[0]; i++ {
			u := fmt.Sprintf([]string{"http://a.org/%d", "https://b.org/u%d", "mid:x%d@y"}[i*i%3], i)
			t := u
			if x.Doc[1] == 1 && x.Doc[2] == 0 {
				t = []string{"[[" + u + "]]", "<" + u + ">", "[[" + u + "][d]]", u}[i%4]
			}
			l = append(l, t)
			all = append(all, rec{url: u})
		}
		all[0].text = strings.Join(l, " ")
		args = []string{[]string{"-org", "-txt"}[x.Doc[2]], write("a.file", all)}
	case "scale":
		pad := strings.Repeat([]string{"x ", "w"}[x.Doc[2]], x.Doc[0]/(2-x.Doc[2])) + " "
		for i := 0; i < x.Doc[1]; i++ {
			all = append(all, rec{"", "filler"})
		}
		u := "http://a.org/" + strings.Repeat("u", x.Doc[3])
		all = append(all, rec{u, pad + u}, rec{"https://b.org/y", "https://b.org/y " + pad}, rec{"mid:x@y", "<mid:x@y>"})
		args = []string{[]string{"-org", "-txt"}[x.Doc[4]], write("a.file", all)}
	case "characters":
		// Doc: kind of file, 1 if every line is in a file of its own
		for i, ch := range linkChars {
			for _, y := range charLines(ch, "http://c.org/"+fmt.Sprint(i)+"/") {
				if x.Doc[0] == 1 && !y.Plain {
					continue
				}
				for k, l := range y.L {
					t := ""
					if k == 0 {
						t = y.Text
					}
					all = append(all, rec{l.URL, t})
				}
				if len(y.L) == 0 {
					all = append(all, rec{"", y.Text})
				}
			}
		}
		args = []string{[]string{"-org", "-txt"}[x.Doc[0]], write("a.file", all)}
	case "txt":
		all = c11txt()
		args = []string{write("a.txt", all)}
	case "both":
		all = append(c11org(), c11txt()...)
		o := c11org()
		args = []string{"-txt", write("t.txt", c11txt()), "-org", write("a.org", o[:len(o)/2]), "-org", write("e.org", nil), "-org", write("b.org", o[len(o)/2:])}
	}
	if x.Config == "disabled" {
		args = append(args, "-disable-link-set")
	}
	var bodies [][]byte
	for i, p := range x.Sets {
		m := []string{"linkremark.linkSet", "burl.linkSet"}[i%2]
		bodies = append(bodies, drv.Req(i, m, map[string]any{"prefix": p}))
	}
	s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
	if err != nil || bad != "" {
		return core.Out{Err: err, Viol: bad, Key: "linkset"}
	}
	for i, p := range x.Sets {
		fail := func(format string, a ...any) core.Out {
			o := core.Bad(fmt.Sprintf("linkset:%s:%q", x.Config, p), "config %s prefixes %q: %s", x.Config, p, fmt.Sprintf(format, a...))
			if len(x.Sets) > 1 {
				o.Min = setCase{x.Config, x.Sets[i : i+1], x.Doc}
			}
			return o
		}
		r := s.Get(i)
		if r == nil {
			return fail("no single reply")
		}
		ok := len(p) > 0 && len(p) <= 16 && x.Config != "none" && x.Config != "disabled"
		for _, q := range p {
			ok = ok && validPrefix(q)
		}
		w.C.Count("replies_checked", 1)
		if !ok {
			if r.OK() {
				return fail("expected an error, got %s", drv.Short(string(r.Result), 300))
			}
			continue
		}
		if !r.OK() {
			return fail("error %v", r.Error)
		}
		var v struct{ Urls []string }
		if err := json.Unmarshal(r.Result, &v); err != nil || v.Urls == nil {
			return fail("bad result %s", r.Result)
		}
		want := map[string]bool{}
		for _, e := range all {
			for _, q := range p {
				if !strings.Contains(q, ":") {
					q += ":"
				}
				if e.url != "" && strings.HasPrefix(e.url, q) {
					want[e.url] = true
				}
			}
		}
		got := append([]string{}, v.Urls...)
		sort.Strings(got)
		var exp []string
		for u := range want {
			exp = append(exp, u)
		}
		sort.Strings(exp)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
			return fail("\n got %q\nwant %q", got, exp)
		}
		w.C.Distinct(x.Config + fmt.Sprint(exp))
	}
	return core.Out{}
}

func c11(c *core.Ctx) {
	c.Rule("linkSet requests with every prefix of every recorded URL, near misses, combinations, wrong numbers and malformed prefixes; the set of URLs is compared with HasPrefix over links known by construction; non-trivial: distinct result sets")
	c.Assume("links of schemes that are neither configured nor requested are not present in the generated files")
	var pre []string
	seen := map[string]bool{}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			pre = append(pre, p)
		}
	}
	for _, r := range append(c11org(), c11txt()...) {
		if r.url == "" {
			continue
		}
		n := strings.Index(r.url, ":")
		for i := n; i <= len(r.url); i++ {
			if i < len(r.url) && r.url[i]&0xc0 == 0x80 {
				continue
			}
			add(r.url[:i])
		}
		add(r.url + "x")
	}
	for _, p := range []string{"http://.*", "http://a.b/(c|d)", "http://a\\.b/", "mid:.", "mid:a?", "mid:[a-z]", "mid:a.*", "http:.", "Http", "htt", "https?", "httpss", "Mid:", "mid:ab|doi:", "http:\\", "mid:a+", "mid:$", "mid:^a", "mid:(", "mid:)", "mid:[", "mid:{1}", "h", "news", "ftp", "no.no", "ftp:", "mid:a b", "http://a.b/ ", " http", "http ", "ht tp:", "1a:", ":", ":x", "", "http//", "-a", "a-", "a--b", "a-+b", "a+b", "a.b:", "a_b:", "http:\n", "http:x\ny", "\nhttp:", "http\n", "é:", "a\u00e9:"} {
		add(p)
	}
	c.Sample(pre[:8])
	var single [][]string
	for _, p := range pre {
		single = append(single, []string{p})
	}
	run := func(space, bounds string, configs []string, sets [][]string) {
		core.Explore(c, space, bounds, func(yield func(setCase) bool) {
			for _, cf := range configs {
				for b := range core.Batch(core.Slice(sets), 40) {
					if !yield(setCase{cf, b, nil}) {
						return
					}
				}
			}
		}, func(w *core.Worker, x setCase) core.Out {
			if c.ReplayCase == nil {
				c.Count("evaluations", len(x.Sets))
			}
			return c11run(w, x)
		})
	}
	every := []string{"org", "txt", "both", "none", "disabled"}
	run("single", fmt.Sprintf("%d single prefixes x configurations %v", len(pre), every), every, single)
	var some []string
	for i, p := range pre {
		if i%core.Pick(c, 7, 3) == 0 || len(p) < 5 || !validPrefix(p) {
			some = append(some, p)
		}
	}
	var pairs [][]string
	for _, a := range some {
		for _, b := range some {
			pairs = append(pairs, []string{a, b})
		}
	}
	run("pairs", fmt.Sprintf("all ordered pairs of %d prefixes", len(some)), []string{"both"}, pairs)
	// number of prefixes
	var nums [][]string
	nums = append(nums, []string{}, nil)
	for n := 1; n <= 20; n++ {
		var good, mixed, same, misses []string
		for i := 0; i < n; i++ {
			good = append(good, single[i*3][0])
			same = append(same, "mid")
			misses = append(misses, fmt.Sprintf("nothing%d", i))
		}
		mixed = append(append([]string{}, misses[:n-1]...), "mid:ab")
		nums = append(nums, good, same, misses, mixed)
		for k := 0; k < n; k++ {
			m := append([]string{}, good...)
			m[k] = "bad prefix"
			nums = append(nums, m)
		}
	}
	run("numbers", "0..20 prefixes, a malformed one at every position", every, nums)
	// the tokens of property C06
	var toks [][]string
	have := map[string]bool{}
	for _, t := range orgToks {
		for i := strings.Index(t.url, ":"); t.url != "" && i <= len(t.url); i++ {
			if p := t.url[:i]; !have[p] && (i == len(t.url) || t.url[i]&0xc0 != 0x80) {
				have[p] = true
				toks = append(toks, []string{p})
			}
		}
	}
	toks = append(toks, []string{"http", "mid"}, []string{"doi", "https:", "http://a.org/w"}, []string{"mid:q", "http://a.org/x y"})
	docs := func(config string, a, b int) {
		core.Explore(c, config, fmt.Sprintf("%d x %d files of tokens of urlMentions in contexts, %d sets of prefixes", a, b, len(toks)), func(yield func(setCase) bool) {
			for d := range core.Product(a, b) {
				if !yield(setCase{config, toks, append([]int{}, d...)}) {
					return
				}
			}
		}, func(w *core.Worker, x setCase) core.Out {
			if c.ReplayCase == nil {
				c.Count("evaluations", len(x.Sets))
			}
			o := c11run(w, x)
			if m, ok := o.Min.(setCase); ok {
				m.Doc = x.Doc
				o.Min = m
			}
			return o
		})
	}
	csets := [][]string{{"http"}, {"http://c.org/1"}, {"http", "mid"}}
	for i := range linkChars {
		csets = append(csets, []string{fmt.Sprintf("http://c.org/%d/", i)}, []string{fmt.Sprintf("http://c.org/%d/x", i)})
	}
	core.Explore(c, "characters", fmt.Sprintf("each of %d characters before, after and inside of links; Org, text; %d sets of prefixes", len(linkChars), len(csets)), func(yield func(setCase) bool) {
		_ = yield(setCase{"characters", csets, []int{0}}) && yield(setCase{"characters", csets, []int{1}})
	}, func(w *core.Worker, x setCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", len(x.Sets))
		}
		return c11run(w, x)
	})
	sets := [][]string{{"http"}, {"https"}, {"http://a.org/"}, {"http://a.org/uu"}, {"http://a.org/x"}, {"mid", "http"}, {"mid:x"}}
	core.Explore(c, "scale", "lines of 2^k bytes and some more or less, k of 10..16, by words or one word; links of 1..40000 bytes; up to 70000 lines; org and txt", func(yield func(setCase) bool) {
		for t := 0; t < 4; t++ {
			for k := 10; k <= 16; k++ {
				for _, d := range []int{-40, -17, -16, -15, -14, -2, 0, 2} {
					if n := 1<<k + d; n < 65500 && !yield(setCase{"scale", sets, []int{n, 0, t & 1, 2, t >> 1}}) {
						return
					}
				}
				if n := 1<<k - 16; n < 60000 && !yield(setCase{"scale", sets, []int{6, 1, t & 1, n, t >> 1}}) {
					return
				}
			}
			for _, n := range []int{255, 1000, 70000} {
				if !yield(setCase{"scale", sets, []int{6, n, t & 1, 2, t >> 1}}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x setCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", len(x.Sets))
		}
		return c11run(w, x)
	})
	core.Explore(c, "long line", "1..40 and up to 1025 links in a single line", func(yield func(setCase) bool) {
		for _, n := range scaleN(1025) {
			for k := 0; k < 3; k++ {
				if !yield(setCase{"long line", sets, []int{n, k & 1, k >> 1}}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x setCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", len(x.Sets))
		}
		return c11run(w, x)
	})
	docs("context", len(leads), len(trails))
	docs("line", len(orgToks), 3)
}
