package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"verif/core"
	"verif/drv"
)

func toolRun(w *core.Worker, dir string, args ...string) drv.Run {
	return drv.Run{Path: filepath.Join(w.C.Bin, "burl_tool"), Args: args, Dir: dir}
}

// toolQuery checks the tree printed for a URL.
func toolQuery(w *core.Worker, dir string, args []string, url string, secs []*drv.Sec) (string, error) {
	return toolQueryIn(w, dir, args, url, secs, "")
}

func toolQueryIn(w *core.Worker, dir string, args []string, url string, secs []*drv.Sec, stdin string) (string, error) {
	// options must precede the URL
	var opts, files []string
	for i := 0; i < len(args); i++ {
		if len(args[i]) > 1 && args[i][0] == '-' && i+1 < len(args) {
			opts = append(opts, args[i], args[i+1])
			i++
		} else {
			files = append(files, args[i])
		}
	}
	run := toolRun(w, dir, append(append(opts, url), files...)...)
	run.Stdin = []byte(stdin)
	d, err := run.Do()
	if err != nil {
		return "", err
	}
	if d.Crashed() || d.Code != 0 {
		return "burl_tool failed: " + d.String(), nil
	}
	w.C.Count("evaluations", 1)
	out := strings.TrimSpace(string(d.Stdout))
	distinct := 0
	for _, s := range secs {
		if e := s.Expect(matcher(url)); e != nil {
			distinct += e.Filtered
		}
	}
	if distinct == 0 {
		if out == "" || out == "null" {
			return "", nil
		}
		if n, err := drv.ParseTree([]byte(out)); err == nil && n.Total == 0 && n.Filtered == 0 && len(n.Children) == 0 {
			return "", nil
		}
		return fmt.Sprintf("query %q matches nothing but the output is %.800s", url, out), nil
	}
	if out == "" {
		return fmt.Sprintf("query %q: nothing is printed, expected %d links", url, distinct), nil
	}
	if distinct <= 8 {
		if df := drv.Diff([]byte(out), secs, matcher(url)); df != "" {
			return fmt.Sprintf("query %q: %s", url, df), nil
		}
		return "", nil
	}
	if bad := c08verify([]byte(out), secs, matcher(url), 8); bad != "" {
		return fmt.Sprintf("query %q: %s", url, bad), nil
	}
	return "", nil
}

type toolCase struct {
	Kind string
	Spec []int
}

func c24(c *core.Ctx) {
	c.Rule("runs of burl_tool over generated files: every query is compared with the link model (limit 8 checked like in C08), -set with HasPrefix; unreadable files at every position; non-trivial: distinct cases")
	c.Assume("when nothing matches, printing nothing, null or an empty tree is accepted")
	pool := c06Pool()
	A, B := orgToks[0].url, orgToks[1].url
	qs := []string{A, B, "http://b.org/y/?#", "https://a.org/x/", "http://nowhere.org/"}
	nf := core.Pick(c, 3, 3)
	core.Explore(c, "files", fmt.Sprintf("all sequences of 1..%d files out of %d x %d queries", nf, len(pool), len(qs)), core.Words(len(pool), 1, nf), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var docs, pos []*Doc
		for i, k := range x {
			d := pool[k]()
			d.Name = fmt.Sprintf("%d-%s", i, d.Name)
			if d.Flag == "" {
				pos = append(pos, d)
			} else {
				docs = append(docs, d)
			}
		}
		docs = append(docs, pos...)
		args := writeDocs(dir, docs)
		var secs []*drv.Sec
		for _, d := range docs {
			secs = append(secs, d.Sec)
		}
		for _, q := range qs {
			bad, err := toolQuery(w, dir, args, q, secs)
			if err != nil || bad != "" {
				return core.Out{Err: err, Viol: bad, Key: "tool-files:" + fmt.Sprint(x)}
			}
		}
		c.Distinct("files" + fmt.Sprint(x))
		return core.Out{}
	})
	// standard input
	core.Explore(c, "standard input", "standard input (implied, -org -, -txt -, -, not requested) with each of the documents, alone or before or after each of the documents x queries; -set", core.Product(len(pool), 5, len(pool)+1, 2), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		in, form, after := pool[x[0]](), x[1], x[3] == 1
		if (form == 0 || x[2] == len(pool)) && (after || form == 0 && x[2] < len(pool)) {
			return core.Out{}
		}
		isOrg := in.Flag == "org" || in.Flag == "" && strings.HasSuffix(in.Name, ".org")
		if form == 4 {
			if after || x[2] == len(pool) {
				return core.Out{}
			}
			isOrg = false
		}
		if isOrg != (form == 1) {
			return core.Out{}
		}
		in.Sec.Path, in.Sec.File = "-", true
		secs := []*drv.Sec{in.Sec}
		args := [][]string{nil, {"-org", "-"}, {"-txt", "-"}, {"-"}, nil}[form]
		if x[2] < len(pool) {
			d := pool[x[2]]()
			if form < 4 && (form == 3) != (d.Flag == "") {
				return core.Out{}
			}
			a := writeDocs(dir, []*Doc{d})
			if after {
				args, secs = append(args, a...), append(secs, d.Sec)
			} else {
				args, secs = append(a, args...), append([]*drv.Sec{d.Sec}, in.Sec)
			}
			if form == 4 {
				secs = secs[:1]
			}
		}
		c.Distinct("stdin" + fmt.Sprint(x))
		key := "tool-stdin:" + fmt.Sprint(x)
		for _, q := range qs {
			bad, err := toolQueryIn(w, dir, args, q, secs, in.Content)
			if err != nil || bad != "" {
				return core.Out{Err: err, Viol: bad, Key: key}
			}
		}
		if form == 3 || form == 4 && len(args) == 1 {
			run := toolRun(w, dir, append([]string{"-set", "http"}, args...)...)
			run.Stdin = []byte(in.Content)
			d, err := run.Do()
			if err != nil {
				return core.Out{Err: err}
			}
			want := map[string]bool{}
			for _, s := range secs {
				secLinks(s, func(u string) {
					if strings.HasPrefix(u, "http:") {
						want[u] = true
					}
				})
			}
			got := strings.Fields(string(d.Stdout))
			bad := d.Code != 0 || len(got) != len(want)
			for _, u := range got {
				bad = bad || !want[u]
			}
			if bad {
				return core.Bad(key, "-set http %q: %s, expected %v", args, d, want)
			}
		}
		return core.Out{}
	})
	// tokens in contexts
	core.Explore(c, "tokens", "every Org token in 4 contexts and every txt token, queried by every URL of the token or near it", func(yield func(toolCase) bool) {
		for t := range orgToks {
			for k := 0; k < 4; k++ {
				if !yield(toolCase{"org", []int{k, t}}) {
					return
				}
			}
		}
		for t := range txtToks {
			if !yield(toolCase{"txt", []int{0, t}}) {
				return
			}
		}
	}, func(w *core.Worker, x toolCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var d *Doc
		var t tok
		if x.Kind == "org" {
			t = orgToks[x.Spec[1]]
			o := newOrg("")
			o.Heading(1, " ", "H", "")
			o.Line([]string{"", "word ", "(", "- "}[x.Spec[0]]+t.text+[]string{"", " end", ")", ", x"}[x.Spec[0]], lnks(t)...)
			d = o.Doc(true)
		} else {
			t = txtToks[x.Spec[1]]
			l := lnks(t)
			for i := range l {
				l[i].Line = 2
			}
			d = &Doc{Flag: "txt", Content: "a\n" + t.text + "\n", Sec: &drv.Sec{Links: l}}
		}
		args := writeDocs(dir, []*Doc{d})
		c.Distinct(fmt.Sprint(x))
		for _, q := range []string{t.url, "http://a.org/x", "ftp://c.org/z", "https://b.org/y/"} {
			if q == "" {
				continue
			}
			bad, err := toolQuery(w, dir, args, q, []*drv.Sec{d.Sec})
			if err != nil || bad != "" {
				return core.Out{Err: err, Viol: bad, Key: "tool-token:" + fmt.Sprint(x)}
			}
		}
		return core.Out{}
	})
	// headings
	nh := core.Pick(c, 4, 5)
	core.Explore(c, "headings", fmt.Sprintf("all sequences of 1..%d headings of levels 1, 2, 4 with a link or not", nh), core.Words(6, 1, nh), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		o := newOrg("")
		U := drv.Lnk{URL: "http://a.org/x"}
		for i, k := range x {
			o.Heading([]int{1, 2, 4}[k/2], " ", fmt.Sprint("H", i), "")
			if k%2 == 1 {
				o.Line("body "+U.URL+" [[https://b.org/y][d]]", U)
			} else {
				o.Line("https://b.org/y")
			}
		}
		d := o.Doc(true)
		args := writeDocs(dir, []*Doc{d})
		c.Distinct("headings" + fmt.Sprint(x))
		bad, err := toolQuery(w, dir, args, U.URL, []*drv.Sec{d.Sec})
		return core.Out{Err: err, Viol: bad, Key: "tool-headings:" + fmt.Sprint(x)}
	})
	// equivalence
	var us []string
	for _, s := range []string{"http:", "https:", "ftp:", "mid:"} {
		for _, b := range []string{"//a.org", "//a.org/x"} {
			for _, t := range []string{"", "/", "//", "?", "/?", "#", "/#", "?#", "/?#", "?&", "/?&&#", "#x", "?x", "/x"} {
				us = append(us, s+b+t)
			}
		}
	}
	eqDoc := func() *Doc {
		o := newOrg("")
		for i, u := range us {
			if strings.HasPrefix(u, "ftp:") {
				o.Line("[[" + u + "]]")
				continue
			}
			if i%10 == 0 {
				o.Heading(1+i/10%3, " ", fmt.Sprint("H", i), "")
			}
			o.Line("[["+u+"]]", drv.Lnk{URL: u})
		}
		return o.Doc(true)
	}
	core.Explore(c, "equivalence", fmt.Sprintf("%d URLs against all of them", len(us)), core.Slice(us), func(w *core.Worker, u string) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		d := eqDoc()
		args := writeDocs(dir, []*Doc{d})
		c.Distinct(u)
		bad, err := toolQuery(w, dir, args, u, []*drv.Sec{d.Sec})
		return core.Out{Err: err, Viol: bad, Key: "tool-equivalence:" + u}
	})
	// limit: n matches in a few shapes
	core.Explore(c, "limit", "0..12 matches x 4 shapes (one section, many sections, nested, several files)", core.Product(13, 4), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var docs []*Doc
		o := newOrg("")
		vars := []string{"", "/", "//", "///", "////", "/////", "//////", "?", "?&", "?&&", "#", "?#", "/#"}
		url := "http://a.org/x//////?&&#"
		for i := 0; i < x[0]; i++ {
			u := "http://a.org/x" + vars[i]
			switch x[1] {
			case 1:
				o.Heading(1, " ", fmt.Sprint("H", i), "")
			case 2:
				o.Heading(i+1, " ", fmt.Sprint("H", i), "")
			case 3:
				if i%2 == 0 {
					docs = append(docs, o.Doc(true))
					o = newOrg("")
				}
			}
			o.Line("[["+u+"]]", drv.Lnk{URL: u})
			o.Line("[[" + u + "x]]")
		}
		docs = append(docs, o.Doc(true))
		args := writeDocs(dir, docs)
		var secs []*drv.Sec
		for _, d := range docs {
			secs = append(secs, d.Sec)
		}
		c.Distinct("limit" + fmt.Sprint(x))
		bad, err := toolQuery(w, dir, args, url, secs)
		return core.Out{Err: err, Viol: bad, Key: "tool-limit:" + fmt.Sprint(x)}
	})
	// more files than anything compared above
	fileNs := scaleN(core.Pick(c, 257, 1025))
	core.Explore(c, "many files", fmt.Sprintf("N files, N of %v, in 6 shapes (one match in each, in the last one only, the more the later, the more the earlier, sections, most in the middle), compared with the reply of the backend", fileNs), core.Product(len(fileNs), 6), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		n := fileNs[x[0]]
		var docs []*Doc
		for i := 0; i < n; i++ {
			k := 1
			switch x[1] {
			case 1:
				k = 0
				if i == n-1 {
					k = 10
				}
			case 2:
				k = i
			case 3:
				k = n - i
			case 4:
				k = i * 7 % 5
			case 5:
				if i == n/2 {
					k = 3
				}
			}
			o := newOrg("")
			for j := 0; j < k && j < 40; j++ {
				if x[1] == 4 {
					o.Heading(1+j%3, " ", fmt.Sprint("H", j), "")
				}
				o.Line([]string{"http://a.org/x", "https://a.org/x/"}[j%2])
			}
			o.Line("http://b.org/")
			docs = append(docs, o.Doc(true))
		}
		args := writeDocs(dir, docs)
		c.Distinct("many files" + fmt.Sprint(x))
		c.Count("evaluations", 1)
		s, bad, err := drv.Burst(backend(w, dir, args...), mentions(1, []string{"http://a.org/x"}, nil))
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: "many-files"}
		}
		d, err := toolRun(w, dir, append(args, "http://a.org/x")...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		want, got := drv.ReplyKey(s.Get(1)), drv.Canon(d.Stdout)
		if none := strings.TrimSpace(string(d.Stdout)); (none == "" || none == "null") && strings.HasSuffix(want, `,"total":0}`) {
			got = want
		}
		if d.Crashed() || d.Code != 0 || got != want {
			return core.Bad(fmt.Sprint("many-files:", x), "%d files: burl_tool prints %s, the backend replies %s: %s", n, drv.Short(got, 900), drv.Short(want, 900), drv.Short(d.String(), 300))
		}
		return core.Out{}
	})
	// -set
	var pre []string
	seen := map[string]bool{}
	for _, r := range append(c11org(), c11txt()...) {
		n := strings.Index(r.url, ":")
		for i := n; r.url != "" && i <= len(r.url); i++ {
			if i < len(r.url) && r.url[i]&0xc0 == 0x80 || i > n+1 && i < len(r.url)-2 && i%3 != 0 {
				continue
			}
			if p := r.url[:i]; !seen[p] {
				seen[p] = true
				pre = append(pre, p)
			}
		}
	}
	pre = append(pre, "http://a.b/(c|d)", "mid:.", "mid:a+", "nothing")
	core.Explore(c, "set", fmt.Sprintf("%d prefixes and neighbouring pairs of them x 3 sets of files", len(pre)), core.Product(len(pre), 2, 3), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var recs []rec
		var files, args []string
		write := func(name string, l []rec) {
			var b strings.Builder
			for _, e := range l {
				b.WriteString(e.text + "\n")
			}
			drv.WriteFile(dir+"/"+name, b.String())
			recs = append(recs, l...)
			files = append(files, dir+"/"+name)
		}
		if x[2] != 1 {
			write("a.org", c11org())
		}
		if x[2] != 0 {
			write("t.txt", c11txt())
		}
		ps := []string{pre[x[0]]}
		if x[1] == 1 {
			ps = append(ps, pre[(x[0]+7)%len(pre)])
		}
		for _, p := range ps {
			args = append(args, "-set", p)
		}
		d, err := toolRun(w, dir, append(args, files...)...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		key := fmt.Sprintf("tool-set:%q:%d", ps, x[2])
		if d.Crashed() || d.Code != 0 {
			return core.Bad(key, "burl_tool -set %q failed: %s", ps, d)
		}
		want := map[string]bool{}
		for _, e := range recs {
			for _, q := range ps {
				if !strings.Contains(q, ":") {
					q += ":"
				}
				if e.url != "" && strings.HasPrefix(e.url, q) {
					want[e.url] = true
				}
			}
		}
		var exp []string
		for u := range want {
			exp = append(exp, u)
		}
		sort.Strings(exp)
		got := []string{}
		for _, l := range strings.Split(string(d.Stdout), "\n") {
			if l != "" {
				got = append(got, l)
			}
		}
		sort.Strings(got)
		c.Count("evaluations", 1)
		c.Distinct(key)
		if strings.Join(got, "\n") != strings.Join(exp, "\n") {
			return core.Bad(key, "-set %q:\n got %q\nwant %q", ps, got, exp)
		}
		return core.Out{}
	})
	setCounts(c)
	encodings(c)
	fifoSources(c, true)
	slowSources(c, true)
	sameFiles(c)
	// unreadable files
	kinds := []string{"missing", "dir", "loop", "long"}
	core.Explore(c, "output", fmt.Sprintf("results of 1, 8 or 1000 links, of a query or -set, printed to a file, a full device, something that can not be written, files limited to 1 and 8 blocks (%d kinds)", len(outWays)), core.Product(3, 2, len(outWays)), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		text := ""
		for i := 0; i < []int{1, 8, 1000}[x[0]]; i++ {
			text += fmt.Sprintf("* h\n%s\nhttp://b.org/%d\n", []string{"[[http://a.org/x][" + strings.Repeat("d", 900) + "]]", "http://a.org/x"}[min(i/8, 1)], i)
		}
		drv.WriteFile(dir+"/a.org", text)
		if x[2] > 2 && x[0] == 0 || x[1] == 1 && x[2] > 2 && x[0] < 2 {
			return core.Out{} // not long enough
		}
		args := []string{filepath.Join(c.Bin, "burl_tool"), "http://a.org/x", dir + "/a.org"}
		if x[1] == 1 {
			args = []string{args[0], "-set", "http", dir + "/a.org"}
		}
		c.Count("evaluations", 1)
		return outputCase(w, dir, x[2], fmt.Sprint(x[:2]), args...)
	})
	counts := scaleN(core.Pick(c, 33, 129))
	core.Explore(c, "unreadable among many", fmt.Sprintf("one file of 4 unreadable kinds, first, second, in the middle or last of N with or without links, N of %v, x query/-set", counts), core.Product(len(counts), len(kinds), 4, 2, 2), func(w *core.Worker, x []int) core.Out {
		n := counts[x[0]]
		at := []int{0, 1, n / 2, n - 1}[x[2]]
		if n < 4 {
			return core.Out{}
		}
		dir := w.Fresh()
		defer rm(dir)
		var files []string
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("%s/%d.org", dir, i)
			if i == at {
				badSource(kinds[x[1]], p)
			} else {
				drv.WriteFile(p, []string{"text\n", "http://a.org/x\n"}[x[3]])
			}
			files = append(files, p)
		}
		args := []string{"http://a.org/x"}
		if x[4] == 1 {
			args = []string{"-set", "http"}
		}
		d, err := toolRun(w, dir, append(args, files...)...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		c.Count("evaluations", 1)
		c.Distinct("unreadable among many" + fmt.Sprint(x))
		if d.Crashed() || d.Code == 0 {
			return core.Bad("tool-unreadable-many:"+fmt.Sprint(x), "%s file %d of %d does not make burl_tool fail: %s", kinds[x[1]], at+1, n, d)
		}
		return core.Out{}
	})
	core.Explore(c, "unreadable", "a file of 4 unreadable kinds at every position of 1..3 files x org/txt/positional x query/-set", core.Product(len(kinds), 3, 3, 3, 2), func(w *core.Worker, x []int) core.Out {
		n, at := x[1]+1, x[2]
		if at >= n {
			return core.Out{}
		}
		dir := w.Fresh()
		defer rm(dir)
		var opts, pos []string
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("%s/%d.org", dir, i)
			if i == at {
				badSource(kinds[x[0]], p)
			} else {
				drv.WriteFile(p, "http://a.org/x\n")
			}
			switch x[3] {
			case 0:
				opts = append(opts, "-org", p)
			case 1:
				opts = append(opts, "-txt", p)
			default:
				pos = append(pos, p)
			}
		}
		args := opts
		if x[4] == 0 {
			args = append(args, "http://a.org/x")
		} else {
			args = append(args, "-set", "http")
			if len(pos) == 0 {
				drv.WriteFile(dir+"/last.org", "http://a.org/x\n")
				pos = append(pos, dir+"/last.org")
			}
		}
		d, err := toolRun(w, dir, append(args, pos...)...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		c.Count("evaluations", 1)
		c.Distinct("unreadable" + fmt.Sprint(x))
		if d.Crashed() || d.Code == 0 {
			return core.Bad("tool-unreadable:"+fmt.Sprint(x), "%s file %d of %d does not make burl_tool fail: %s", kinds[x[0]], at+1, n, d)
		}
		return core.Out{}
	})
}

// badSource creates something that can not be completely read.
func badSource(kind, p string) {
	switch kind {
	case "missing":
	case "dir":
		mkdir(p)
	case "loop":
		symlink(p, p)
	case "long":
		drv.WriteFile(p, "http://a.org/x\n"+strings.Repeat("y", 70000)+" http://a.org/x\nhttp://a.org/x\n")
	case "longlast":
		drv.WriteFile(p, "http://a.org/x\n"+strings.Repeat("y ", 40000))
	case "dangling":
		symlink(p+".none", p)
	case "notdir":
		drv.WriteFile(p+".f", "")
	}
}

func secLinks(s *drv.Sec, f func(string)) {
	for _, l := range s.Links {
		f(l.URL)
	}
	for _, x := range s.Subs {
		secLinks(x, f)
	}
}

// sameFiles: files given several times and in several ways.
func sameFiles(c *core.Ctx) {
	ways := []string{"-org a", "-txt a", "a", "-org b", "-txt b", "b", "l"}
	n := core.Pick(c, 4, 5)
	core.Explore(c, "repeated", fmt.Sprintf("all sequences of 1..%d of two files, one of them also through a symbolic link, as Org, text and by name; a query and -set", n), core.Words(len(ways), 1, n), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		key := "tool-repeated:" + fmt.Sprint(x)
		drv.WriteFile(dir+"/a.org", "* H\nhttp://a.org/x\nhttp://a.org/1\n")
		drv.WriteFile(dir+"/b.txt", "text\n* http://a.org/x\nhttp://b.org/2\n")
		symlink("a.org", dir+"/l.org")
		file := map[string]string{"a": "a.org", "b": "b.txt", "l": "l.org"}
		org := func(name string) *drv.Sec {
			h := &drv.Sec{}
			f := &drv.Sec{Path: dir + "/" + file[name], File: true, Subs: []*drv.Sec{h}}
			if name == "b" {
				h.Text, h.Line, h.Links = "http://a.org/x", 2, []drv.Lnk{{URL: "http://a.org/x", Line: 2}}
			} else {
				h.Text, h.Line, h.Links = "H", 1, []drv.Lnk{{URL: "http://a.org/x", Line: 2}}
			}
			return f
		}
		txt := func(name string) *drv.Sec {
			return &drv.Sec{Path: dir + "/" + file[name], File: true, Links: []drv.Lnk{{URL: "http://a.org/x", Line: 2}}}
		}
		var opts, pos []string
		var so, sp []*drv.Sec
		want := map[string]bool{"http://a.org/x": true}
		for _, k := range x {
			way, name, opt := strings.Cut(ways[k], " ")
			if !opt {
				name = way
				pos = append(pos, dir+"/"+file[name])
				if name == "b" {
					sp = append(sp, txt(name))
				} else {
					sp = append(sp, org(name))
				}
			} else {
				opts = append(opts, way, dir+"/"+file[name])
				if way == "-org" {
					so = append(so, org(name))
				} else {
					so = append(so, txt(name))
				}
			}
			want[map[string]string{"a": "http://a.org/1", "b": "http://b.org/2", "l": "http://a.org/1"}[name]] = true
		}
		c.Distinct(key)
		bad, err := toolQuery(w, dir, append(append([]string{}, opts...), pos...), "http://a.org/x", append(so, sp...))
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if len(pos) == 0 {
			return core.Out{}
		}
		d, err := toolRun(w, dir, append(append([]string{"-set", "http:"}, opts...), pos...)...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		got := strings.Fields(string(d.Stdout))
		wrong := d.Crashed() || d.Code != 0 || len(got) != len(want)
		for _, u := range got {
			wrong = wrong || !want[u]
		}
		if wrong {
			return core.Bad(key, "-set http: %q %q: %s, expected %v", opts, pos, d, want)
		}
		return core.Out{}
	})
}

// setCounts: any number of prefixes. linkSet refuses more than 16 of them, the
// tool may do so, but it must not use a part of them.
func setCounts(c *core.Ctx) {
	core.Explore(c, "many prefixes", "1..130 prefixes with links or without, repeated or not", core.Product(130, 3), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		n := x[0] + 1
		var b strings.Builder
		var args, exp []string
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("http://s%d.org/", i)
			switch x[1] {
			case 1:
				p = fmt.Sprintf("x%d:", i)
			case 2:
				p = fmt.Sprintf("http://s%d.org/", i/2)
			}
			b.WriteString("[[" + p + fmt.Sprint(i) + "]]\nhttp://other.org/" + fmt.Sprint(i) + "\n")
			args = append(args, "-set", p)
			exp = append(exp, p+fmt.Sprint(i))
		}
		drv.WriteFile(dir+"/a.org", b.String())
		d, err := toolRun(w, dir, append(args, dir+"/a.org")...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		c.Count("evaluations", 1)
		c.Distinct("many prefixes" + fmt.Sprint(x))
		key := fmt.Sprintf("tool-set-many:%v", x)
		if d.Crashed() {
			return core.Bad(key, "%d prefixes: %s", n, d)
		}
		got := strings.Split(strings.TrimSuffix(string(d.Stdout), "\n"), "\n")
		if n > 16 && d.Code != 0 && len(d.Stdout) == 0 {
			return core.Out{}
		}
		sort.Strings(got)
		sort.Strings(exp)
		if d.Code != 0 || strings.Join(got, "\n") != strings.Join(exp, "\n") {
			return core.Bad(key, "%d prefixes: exit status %d\n got %q\nwant %q", n, d.Code, got, exp)
		}
		return core.Out{}
	})
}

// encodings: URLs that are not valid UTF-8, in notes and on the command line.
func encodings(c *core.Ctx) {
	bases := []string{"http://a.org/caf\xe9", "http://a.org/caf\xe8", "https://a.org/caf\xe9", "http://a.org/caf\u00e9", "http://a.org/caf\xc3", "http://a.org/caf\ufffd", "http://a.org/\xe9x", "http://\xff\xfe.org/x", "mid:\xe9@x", "http://a.org/\xe9/\xed\xa0\x80x", "http://a.org/caf"}
	tails := []string{"", "/", "/?", "/#", "\xe9/", "/\xe9"}
	core.Explore(c, "encodings", fmt.Sprintf("%d URLs, most of them not valid UTF-8, with %d tails in each form of a link in an Org file, queried by all of them and by prefixes", len(bases), len(tails)), core.Product(len(bases), len(tails), 2), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var b strings.Builder
		var urls []string
		for _, u := range bases {
			for _, t := range tails {
				urls = append(urls, u+t)
				b.WriteString("[[" + u + t + "]]\n")
			}
		}
		for i, u := range bases {
			urls = append(urls, u+"y")
			b.WriteString([]string{"<" + u + "y>", "\xe9 " + u + "y \xe9"}[i%2] + "\n")
		}
		first := func(i int) bool {
			for _, u := range urls[:i] {
				if u == urls[i] {
					return false
				}
			}
			return true
		}
		drv.WriteFile(dir+"/a.org", b.String())
		q := bases[x[0]] + tails[x[1]]
		key := fmt.Sprintf("tool-encodings:%v", x)
		args := []string{q}
		if x[2] == 1 {
			if strings.Contains(q, "\ufffd") {
				return core.Out{} // it stands for any invalid byte
			}
			args = []string{"-set", q}
		}
		d, err := toolRun(w, dir, append(args, dir+"/a.org")...).Do()
		if err != nil {
			return core.Out{Err: err}
		}
		c.Count("evaluations", 1)
		c.Distinct("encodings" + fmt.Sprint(x))
		if d.Crashed() {
			return core.Bad(key, "%q: %s", args, d)
		}
		if x[2] == 1 {
			if d.Code != 0 && len(d.Stdout) == 0 && !utf8.ValidString(q) {
				return core.Out{} // such a prefix may be refused
			}
			got, exp := strings.Split(strings.TrimSuffix(string(d.Stdout), "\n"), "\n"), []string{}
			for i, u := range urls {
				if strings.HasPrefix(u, q) && first(i) {
					exp = append(exp, u)
				}
			}
			sort.Strings(got)
			sort.Strings(exp)
			if d.Code != 0 || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
				return core.Bad(key, "prefix %q: status %d\n got %q\nwant %q", q, d.Code, got, exp)
			}
			return core.Out{}
		}
		var exp, got []int
		match := matcher(q)
		for i, u := range urls {
			if match(u) && first(i) {
				exp = append(exp, i+1)
			}
		}
		t, err := drv.ParseTree(d.Stdout)
		if err != nil {
			return core.Bad(key, "query %q: %v: %s", q, err, d)
		}
		var walk func(n *drv.Node)
		walk = func(n *drv.Node) {
			for _, l := range n.Links {
				got = append(got, l.Line)
			}
			for _, k := range n.Children {
				walk(k)
			}
		}
		walk(t)
		if d.Code != 0 || fmt.Sprint(got) != fmt.Sprint(exp) {
			return core.Bad(key, "query %q: status %d, links of lines %v instead of %v:\n%s", q, d.Code, got, exp, d)
		}
		return core.Out{}
	})
}
