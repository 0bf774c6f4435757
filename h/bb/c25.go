package main

import (
	"fmt"
	"strings"

	"verif/core"
	"verif/drv"
)

// c25: which links are recognised for lists of -scheme options.

type schemeCase struct {
	Opts []string
	How  int // order of options and files
}

// every scheme with every form; names are chosen so that one is a beginning, an
// end or a part of another one.
var c25schemes = []string{"http", "https", "mid", "doi", "ftp", "sftp", "news", "newsgroup", "f", "x-y", "HTTP", "file"}

type c25link struct {
	scheme string
	l      drv.Lnk
}

func c25doc() (*Doc, []c25link) {
	o := newOrg("")
	var all []c25link
	add := func(s string, text string, u, d string) {
		o.Line(text)
		all = append(all, c25link{s, drv.Lnk{URL: u, Descr: d, Line: o.line}})
	}
	for i, s := range c25schemes {
		p := s + "://host/"
		if i%3 == 2 {
			p = s + ":"
		}
		add(s, "plain "+p+"p1, w", p+"p1", "")
		add(s, p+"p2", p+"p2", "")
		add(s, "("+p+"p3)", p+"p3", "")
		add(s, "<"+p+"a1>", p+"a1", "")
		add(s, "x <"+p+"a2 b>", p+"a2 b", "")
		add(s, "[["+p+"b1]]", p+"b1", "")
		add(s, "y [["+p+"b2 c][descr "+s+"]] z", p+"b2 c", "descr "+s)
		add(s, "[["+s+":]]", s+":", "")
		// the name of the scheme elsewhere
		for _, t := range []string{"[[file:" + s + "/x]]", "[[file:" + s + "]]", "[[*" + s + ":x]]", "[[id:" + s + ":x][d]]", "[[ " + s + ":x]]",
			"[[" + s + "]]", "[[" + s + "er]]", "q" + s + ":no", "9" + s + ":no", "_" + s + ":no", s + "_:no", s + " :no", s + "//no"} {
			o.Line(t)
			switch {
			case strings.HasPrefix(t, "[[file:"):
				u, _, _ := strings.Cut(t[2:], "]")
				all = append(all, c25link{"file", drv.Lnk{URL: u, Line: o.line}})
			}
		}
	}
	return o.Doc(true), all
}

// c25effective is the reference for the list of options.
func c25effective(opts []string) (list []string, refused bool) {
	list = []string{"doi", "http", "https", "mid"}
	appended, reset := false, false
	for _, o := range opts {
		if o == "" {
			if appended && !reset {
				return nil, true
			}
			list, reset = nil, true
			continue
		}
		appended = true
		list = append(list, strings.TrimSuffix(o, ":"))
	}
	return
}

func c25(c *core.Ctx) {
	c.Rule("every sequence of -scheme options up to the bound against one Org file that has every scheme in plain, angle and bracket form and as a part of something else; every URL is queried; non-trivial: distinct sequences of options")
	c.Assume("scheme options are literal names or, in one space, patterns with the operators ?, | and a non-capturing group; other regular expression operators are possible in the program but not explored")
	doc, all := c25doc()
	alpha := []string{"", "ftp", "ftp:", "news:", "http", "mid", "f", "x-y", "newsgroup"}
	n := core.Pick(c, 3, 4)
	urls := map[string]bool{}
	var queries []string
	for _, a := range all {
		if !urls[a.l.URL] {
			urls[a.l.URL] = true
			queries = append(queries, a.l.URL)
		}
	}
	for _, s := range c25schemes {
		queries = append(queries, s, s+"er", "*"+s+":x", "id:"+s+":x", s+":no", s+":x", s+"_:no", " "+s+":x")
	}
	c.Sample(doc.Content[:200])
	core.Explore(c, "options", fmt.Sprintf("all sequences of 0..%d options over %q; files before and after the options", n, alpha), func(yield func(schemeCase) bool) {
		for wd := range core.Words(len(alpha), 0, n) {
			var o []string
			for _, k := range wd {
				o = append(o, alpha[k])
			}
			for h := 0; h < 2; h++ {
				if !yield(schemeCase{o, h}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x schemeCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		list, refused := c25effective(x.Opts)
		key := fmt.Sprintf("schemes:%q", x.Opts)
		ok := func(s string) bool {
			for _, l := range list {
				if l == s {
					return true
				}
			}
			return false
		}
		sec := &drv.Sec{File: true}
		for _, a := range all {
			if ok(a.scheme) {
				sec.Links = append(sec.Links, a.l)
			}
		}
		d := &Doc{Content: doc.Content, Flag: "org", Sec: sec}
		args := writeDocs(dir, []*Doc{d})
		if x.How == 1 {
			args = nil
		}
		for i, o := range x.Opts {
			if i%2 == x.How {
				args = append(args, "-scheme", o)
			} else {
				args = append(args, "--scheme="+o)
			}
		}
		if x.How == 1 {
			args = append(args, sec.Path)
		}
		var bodies [][]byte
		for i, q := range queries {
			bodies = append(bodies, mentions(i, []string{q}, big))
		}
		s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x.Opts, x.How))
		}
		if refused || len(list) == 0 {
			if len(s.Frames) != 0 && refused || s.Done.Code == 0 && refused {
				return core.Bad(key, "options %q have to be refused: %s", x.Opts, drv.Short(s.Done.String(), 500))
			}
			for i, q := range queries {
				if r := s.Get(i); r != nil && r.OK() {
					if n, err := drv.ParseTree(r.Result); err != nil || n.Filtered != 0 {
						return core.Bad(key, "options %q: no scheme is configured but %q is found: %s", x.Opts, q, r.Result)
					}
				}
			}
			return core.Out{}
		}
		for i, q := range queries {
			r := s.Get(i)
			if r == nil {
				return core.Bad(key, "options %q: no reply to %q: %s", x.Opts, q, drv.Short(s.Done.String(), 500))
			}
			if !r.OK() {
				return core.Bad(key, "options %q: error %v for %q", x.Opts, r.Error, q)
			}
			if c.ReplayCase == nil {
				c.Count("replies_compared", 1)
			}
			if df := drv.Diff(r.Result, []*drv.Sec{sec}, matcher(q)); df != "" {
				return core.Bad(key, "options %q, query %q: %s", x.Opts, q, df)
			}
		}
		return core.Out{}
	})
	c25scale(c)
	c25alike(c)
	c25odd(c)
}

// c25odd: a lone colon is an empty name, it neither clears the list nor is a
// scheme; the default list has a pattern, so patterns may be added as well.
func c25odd(c *core.Ctx) {
	type link struct {
		text, url, descr string
		by               []string // options that make it a link; "" is the default list
	}
	def := []string{""}
	ftp := []string{"ftp", "ftp:", "s?ftp", "s?ftp:"}
	sftp := []string{"s?ftp", "s?ftp:"}
	s3 := []string{"(?:s3|gs)", "(?:s3|gs):"}
	links := []link{
		{"https://a.org/x", "https://a.org/x", "", def}, {"<http://a.org/y>", "http://a.org/y", "", def}, {"[[mid:z][d]]", "mid:z", "d", def},
		{"a::bcd", "::bcd", "", nil}, {"[[::bcd]]", "::bcd", "", nil}, {"[[:bcd]]", ":bcd", "", nil}, {"<::bcd>", "::bcd", "", nil}, {"<:bcd>", ":bcd", "", nil},
		{"x :bcd", ":bcd", "", nil}, {"[[bcd]]", "bcd", "", nil}, {"bcd", "bcd", "", nil},
		{"ftp:f1", "ftp:f1", "", ftp}, {"[[ftp:f2][d]]", "ftp:f2", "d", ftp}, {"<ftp:f3>", "ftp:f3", "", ftp},
		{"sftp:f1", "sftp:f1", "", sftp}, {"[[sftp:f2][d]]", "sftp:f2", "d", sftp}, {"<sftp:f3>", "sftp:f3", "", sftp},
		{"s3:f1", "s3:f1", "", s3}, {"[[gs:f2][d]]", "gs:f2", "d", s3}, {"<s3://f3>", "s3://f3", "", s3}, {"gs:f4", "gs:f4", "", s3},
		{"s:f1", "s:f1", "", nil}, {"[[?:f1]]", "?:f1", "", nil}, {"xs3:f1", "xs3:f1", "", nil}, {"[[gs3:f1]]", "gs3:f1", "", nil},
	}
	o := newOrg("")
	var lines []int
	var queries []string
	for _, l := range links {
		o.Line(l.text)
		lines = append(lines, o.line)
		queries = append(queries, l.url)
	}
	doc := o.Doc(true)
	alpha := []string{"", ":", "ftp", "ftp:", "s?ftp", "s?ftp:", "(?:s3|gs)", "(?:s3|gs):"}
	n := core.Pick(c, 3, 4)
	core.Explore(c, "colons and patterns", fmt.Sprintf("all sequences of 0..%d options over %q", n, alpha), func(yield func(schemeCase) bool) {
		for wd := range core.Words(len(alpha), 0, n) {
			var o []string
			for _, k := range wd {
				o = append(o, alpha[k])
			}
			if !yield(schemeCase{o, len(o) % 2}) {
				return
			}
		}
	}, func(w *core.Worker, x schemeCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		key := fmt.Sprintf("colons and patterns:%q", x.Opts)
		list := []string{""}
		appended := false
		for _, o := range x.Opts {
			if o == "" {
				list = nil
				if appended {
					// Whether the list may be cleared later is explored by the space of options.
					return core.Out{}
				}
			} else {
				appended = true
				list = append(list, o)
			}
		}
		sec := &drv.Sec{File: true}
		for i, l := range links {
			found := false
			for _, b := range l.by {
				for _, o := range list {
					found = found || o == b
				}
			}
			if found {
				sec.Links = append(sec.Links, drv.Lnk{URL: l.url, Descr: l.descr, Line: lines[i]})
			}
		}
		d := &Doc{Content: doc.Content, Flag: "org", Sec: sec}
		args := writeDocs(dir, []*Doc{d})
		for i, o := range x.Opts {
			if (i+x.How)%2 == 0 {
				args = append(args, "-scheme", o)
			} else {
				args = append(args, "--scheme="+o)
			}
		}
		var bodies [][]byte
		for i, q := range queries {
			bodies = append(bodies, mentions(i, []string{q}, big))
		}
		s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint("odd", x.Opts))
		}
		for i, q := range queries {
			r := s.Get(i)
			if len(sec.Links) == 0 {
				if r != nil && r.OK() {
					if n, err := drv.ParseTree(r.Result); err != nil || n.Filtered != 0 {
						return core.Bad(key, "options %q: no scheme is configured but %q is found: %s", x.Opts, q, r.Result)
					}
				}
				continue
			}
			if r == nil {
				return core.Bad(key, "options %q: no reply to %q: %s", x.Opts, q, drv.Short(s.Done.String(), 500))
			}
			if !r.OK() {
				return core.Bad(key, "options %q: error %v for %q", x.Opts, r.Error, q)
			}
			if c.ReplayCase == nil {
				c.Count("replies_compared", 1)
			}
			if df := drv.Diff(r.Result, []*drv.Sec{sec}, matcher(q)); df != "" {
				return core.Bad(key, "options %q, query %q: %s", x.Opts, q, df)
			}
		}
		return core.Out{}
	})
}
