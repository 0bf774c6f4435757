package main

import (
	"fmt"
	"strings"

	"verif/core"
	"verif/drv"
)

// tok is a piece of text with the link it has to be recognised as, if any.
type tok struct {
	text string
	url  string
	desc string
}

var orgToks = []tok{
	{"http://a.org/x", "http://a.org/x", ""},
	{"https://b.org/y/", "https://b.org/y/", ""},
	{"http://a.org/w_(x)", "http://a.org/w_(x)", ""},
	{"http://a.org/((p)q)r", "http://a.org/((p)q)r", ""},
	{"http://a.org/?q=1&r=%20#f-1", "http://a.org/?q=1&r=%20#f-1", ""},
	{"http://a.org:8080/\u00e9", "http://a.org:8080/\u00e9", ""},
	{"mid:1.ab@c.de", "mid:1.ab@c.de", ""},
	{"doi:10.1000/182", "doi:10.1000/182", ""},
	{"<http://a.org/x>", "http://a.org/x", ""},
	{"<http://a.org/x y.>", "http://a.org/x y.", ""},
	{"<mid:q@b.c>", "mid:q@b.c", ""},
	{"[[http://a.org/x]]", "http://a.org/x", ""},
	{"[[http://a.org/x][D]]", "http://a.org/x", "D"},
	{"[[http://a.org/x y][two words]]", "http://a.org/x y", "two words"},
	{"[[https://b.org/y/][see http://a.org/x here]]", "https://b.org/y/", "see http://a.org/x here"},
	{"[[http://a.org/x][a]b]]", "http://a.org/x", "a]b"},
	{"[[doi:10.1/ab.][=c= \u00e9]]", "doi:10.1/ab.", "=c= \u00e9"},
	{"[[mid:a]]", "mid:a", ""},
	{"[http://a.org/x]", "http://a.org/x", ""},
	{"(http://a.org/x)", "http://a.org/x", ""},
	{"\"http://a.org/x\"", "http://a.org/x", ""},
	{"{http://a.org/x}", "http://a.org/x", ""},
	{"'mid:1.ab@c.de'", "mid:1.ab@c.de", ""},
	// not links
	{"word", "", ""},
	{"[[file:http/x.org]]", "", ""},
	{"[[file:http://a.org/x][F]]", "", ""},
	{"[[id:http-1][T]]", "", ""},
	{"[[https]]", "", ""},
	{"[[*http: section]]", "", ""},
	{"[[doing it]]", "", ""},
	{"ftp://c.org/z", "", ""},
	{"xhttp://a.org/x", "", ""},
	{"http_://a.org/x", "", ""},
	{"http//a.org/x", "", ""},
	{"www.a.org/x", "", ""},
	{"http:", "", ""},
	{"<ftp://c.org/z>", "", ""},
	{"[[ftp://c.org/z][F]]", "", ""},
	{"HTTP://a.org/x", "", ""},
}

var txtToks = []tok{
	{"http://a.org/x", "http://a.org/x", ""},
	{"https://b.org/y/", "https://b.org/y/", ""},
	{"http://www.a.org/~u/i.html", "http://www.a.org/~u/i.html", ""},
	{"http://a.org/%20_-@", "http://a.org/%20_-@", ""},
	{"(http://a.org/x)", "http://a.org/x", ""},
	{"\"http://a.org/x\"", "http://a.org/x", ""},
	{"<http://a.org/x>", "http://a.org/x", ""},
	{"[[http://a.org/x][D]]", "http://a.org/x", ""},
	{"http://\u043f\u043e\u0447\u0442\u0430.\u0440\u0444/x", "http://\u043f\u043e\u0447\u0442\u0430.\u0440\u0444/x", ""},
	{"word", "", ""},
	{"src/FFmpeg", "", ""},
	{"1/2", "", ""},
	{"*", "", ""},
	{"http:", "", ""},
}

func urlsOf(toks []tok) (r []string) {
	seen := map[string]bool{}
	for _, t := range toks {
		if t.url != "" && !seen[t.url] {
			seen[t.url] = true
			r = append(r, t.url)
		}
	}
	return
}

func lnks(t ...tok) (r []drv.Lnk) {
	for _, x := range t {
		if x.url != "" {
			r = append(r, drv.Lnk{URL: x.url, Descr: x.desc})
		}
	}
	return
}

// specDocs: a batch of documents, each described by a list of small integers.
type specDocs struct {
	Kind  string
	Specs [][]int
}

// runSpecs checks a batch and points out the culprit if it is a single document.
func runSpecs(w *core.Worker, x specDocs, build func([]int) *Doc, queries [][]string, extra ...string) core.Out {
	var docs []*Doc
	for _, s := range x.Specs {
		docs = append(docs, build(s))
	}
	bad, err := checkMentions(w, docs, queries, extra...)
	if err != nil {
		return core.Out{Err: err}
	}
	if bad == "" {
		return core.Out{}
	}
	o := core.Out{Viol: bad, Key: x.Kind + ":" + core.ShortHash(bad)}
	if len(x.Specs) > 1 {
		for _, s := range x.Specs {
			d := build(s)
			b, err := checkMentions(w, []*Doc{d}, queries, extra...)
			if err == nil && b != "" {
				o.Viol = fmt.Sprintf("file content:\n%s\n%s", drv.Short(d.Content, 1500), drv.Short(b, 1500))
				o.Min = specDocs{x.Kind, [][]int{s}}
				o.Key = x.Kind + ":" + fmt.Sprint(s)
				break
			}
		}
	} else {
		o.Viol = fmt.Sprintf("file content:\n%s\n%s", drv.Short(docs[0].Content, 1500), drv.Short(bad, 1500))
		o.Key = x.Kind + ":" + fmt.Sprint(x.Specs[0])
	}
	return o
}

func single(urls []string) (r [][]string) {
	for _, u := range urls {
		r = append(r, []string{u})
	}
	return
}

var leads = []string{"", " ", "\t", "- ", "word ", "(", "\"", "| ", "#+title: ", "1. ", "*", "é "}
var trails = []string{"", " ", "\t", " end", ".", ", x", ")", "\"", " |", "!", "?", ";", "  "}

func c06(c *core.Ctx) {
	c.Rule("a case is a batch of generated note files with links known by construction; every reply tree (structure, counts, path, line, description) is compared with a model; non-trivial: distinct file contents with at least one line")
	c.Assume("Org text is built of the token list in c06.go; URLs in txt files avoid ports, queries and trailing punctuation that the plain text heuristics does not support")
	batch := 400
	ex := func(kind string, specs func(func([]int) bool), build func([]int) *Doc, queries [][]string, bounds string, extra ...string) {
		core.Explore(c, kind, bounds, core.Map(core.Batch(specs, batch), func(s [][]int) specDocs {
			return specDocs{kind, s}
		}), func(w *core.Worker, x specDocs) core.Out {
			if c.ReplayCase == nil {
				for _, s := range x.Specs {
					c.Distinct(kind + fmt.Sprint(s))
				}
				c.Count("evaluations", len(x.Specs))
			}
			return runSpecs(w, x, build, queries, extra...)
		})
	}
	orgQ := single(append(urlsOf(orgToks), "ftp://c.org/z", "file:http/x.org", "http", "a.org/x", "*http: section", "doing it", "HTTP://a.org/x", "http://a.org/x y", "http://nowhere.org/"))
	orgQ = append(orgQ, []string{"", "http://a.org/x", "mid:a"}, []string{"https://b.org/y/", "https://b.org/y"})
	c.Sample(orgToks[14].text)
	// 1. every token in every context
	ctx := func(s []int) *Doc {
		o := newOrg("")
		t := orgToks[s[1]]
		lead := leads[s[0]]
		if strings.HasSuffix(lead, "é ") && s[2] > 5 {
			lead = "é\t"
		}
		o.Line(lead+t.text+trails[s[2]], lnks(t)...)
		return o.Doc(true)
	}
	ex("org-context", core.Product(len(leads), len(orgToks), len(trails)), ctx, orgQ,
		fmt.Sprintf("%d leading contexts x %d tokens x %d trailing contexts", len(leads), len(orgToks), len(trails)))
	// 2. tokens in one line
	seps := []string{" ", ", ", "\t- "}
	multi := func(s []int) *Doc {
		o := newOrg("")
		var ts []tok
		text := ""
		for i, k := range s[1:] {
			if i > 0 {
				text += seps[s[0]]
			}
			text += orgToks[k].text
			ts = append(ts, orgToks[k])
		}
		o.Line(text, lnks(ts...)...)
		return o.Doc(true)
	}
	dims := []int{len(seps), len(orgToks), len(orgToks)}
	ex("org-pair", core.Product(dims...), multi, orgQ, "all pairs of tokens x 3 separators in one line")
	if c.Thorough() {
		ex("org-triple", core.Product(1, len(orgToks), len(orgToks), len(orgToks)), multi, orgQ, "all triples of tokens in one line")
	}
	// 3. adjacency without separators
	closed := []int{}
	for i, t := range orgToks {
		if strings.HasPrefix(t.text, "[[") || strings.HasPrefix(t.text, "<") {
			closed = append(closed, i)
		}
	}
	adj := func(s []int) *Doc {
		o := newOrg("")
		a, b := orgToks[closed[s[0]]], orgToks[closed[s[1]]]
		o.Line(a.text+b.text, lnks(a, b)...)
		return o.Doc(true)
	}
	ex("org-adjacent", core.Product(len(closed), len(closed)), adj, orgQ, "all pairs of bracket and angle tokens without a separator")
	// 4. line structure
	A, A2, B := orgToks[0], orgToks[12], orgToks[1]
	lines := []func(o *orgBuilder){
		func(o *orgBuilder) { o.Line("") },
		func(o *orgBuilder) { o.Line("text") },
		func(o *orgBuilder) { o.Line(A.text, lnks(A)...) },
		func(o *orgBuilder) { o.Line("- "+A2.text, lnks(A2)...) },
		func(o *orgBuilder) { o.Line(B.text+" "+A.text+" "+B.text, lnks(B, A, B)...) },
		func(o *orgBuilder) { o.Heading(1, " ", "H "+A.text, "", lnks(A)...) },
		func(o *orgBuilder) { o.Heading(1, "  ", "same", " ") },
		func(o *orgBuilder) { o.Heading(2, "\t", "T é", "") },
		func(o *orgBuilder) { o.Line("** ") },
	}
	lines[8] = func(o *orgBuilder) { o.Heading(2, " ", "", "") }
	struc := func(s []int) *Doc {
		o := newOrg([]string{"\n", "\r\n"}[s[0]&1])
		for _, k := range s[1:] {
			lines[k](o)
		}
		return o.Doc(s[0]&2 == 0)
	}
	structQ := [][]string{{A.url}, {B.url}, {A.url, B.url}, {B.url, A.url}, {A.url, A.url}, {"http://nowhere.org/"}}
	n := core.Pick(c, 4, 5)
	ex("org-lines", func(yield func([]int) bool) {
		for wd := range core.Words(len(lines), 1, n) {
			for e := 0; e < 4; e++ {
				if !yield(append([]int{e}, wd...)) {
					return
				}
			}
		}
	}, struc, structQ, fmt.Sprintf("all files of 1..%d lines over %d kinds of lines x LF/CRLF x final newline", n, len(lines)))
	// 5. txt
	tleads := []string{"", " ", "\t", "word ", "x; "}
	ttrails := []string{"", " ", "\tend", " ."}
	txt := func(s []int) *Doc {
		text := tleads[s[0]]
		var ts []tok
		for i, k := range s[2:] {
			if i > 0 {
				text += " "
			}
			text += txtToks[k].text
			ts = append(ts, txtToks[k])
		}
		l := lnks(ts...)
		for i := range l {
			l[i].Line = 2
		}
		return &Doc{Flag: "txt", Content: "first\n" + text + ttrails[s[1]] + "\n", Sec: &drv.Sec{Links: l}}
	}
	txtQ := single(append(urlsOf(txtToks), "src/FFmpeg", "word", "http:", "1/2", "http://nowhere.org/"))
	ex("txt-context", core.Product(len(tleads), len(ttrails), len(txtToks)), txt, txtQ, "every txt token in every context")
	ex("txt-pair", core.Product(1, len(ttrails), len(txtToks), len(txtToks)), txt, txtQ, "all pairs of txt tokens")
	if c.Thorough() {
		ex("txt-triple", core.Product(2, 1, len(txtToks), len(txtToks), len(txtToks)), txt, txtQ, "all triples of txt tokens")
	}
	txtLines := []struct {
		text string
		l    []tok
	}{{"", nil}, {"text", nil}, {txtToks[0].text, txtToks[:1]}, {" " + txtToks[1].text + " " + txtToks[0].text, []tok{txtToks[1], txtToks[0]}},
		{"* " + txtToks[4].text, txtToks[4:5]}}
	tstruc := func(s []int) *Doc {
		eol := []string{"\n", "\r\n"}[s[0]&1]
		var b strings.Builder
		sec := &drv.Sec{}
		for i, k := range s[1:] {
			b.WriteString(txtLines[k].text + eol)
			for _, l := range lnks(txtLines[k].l...) {
				l.Line = i + 1
				sec.Links = append(sec.Links, l)
			}
		}
		content := b.String()
		if s[0]&2 != 0 {
			content = strings.TrimSuffix(content, eol)
		}
		return &Doc{Flag: "txt", Content: content, Sec: sec}
	}
	tn := core.Pick(c, 5, 6)
	ex("txt-lines", func(yield func([]int) bool) {
		for wd := range core.Words(len(txtLines), 1, tn) {
			for e := 0; e < 4; e++ {
				if !yield(append([]int{e}, wd...)) {
					return
				}
			}
		}
	}, tstruc, structQ, fmt.Sprintf("all txt files of 1..%d lines over %d kinds", tn, len(txtLines)))
	// 6. long lines and long files
	long := func(s []int) *Doc {
		o := newOrg("")
		pad := strings.Repeat("x ", s[0]/2)
		for i := 0; i < s[1]; i++ {
			o.Line("filler")
		}
		o.Line(pad+A.text, lnks(A)...)
		o.Line(B.text+" "+pad, lnks(B)...)
		if s[2] > 0 {
			o.Line("", nil...)
			o.Line(A2.text, lnks(A2)...)
		}
		return o.Doc(true)
	}
	ex("org-long", func(yield func([]int) bool) {
		for _, p := range []int{0, 4000, 4096, 8100, 32768, 65000, 65500} {
			for _, k := range []int{0, 1, 1000, 10000} {
				for e := 0; e < 2; e++ {
					if !yield([]int{p, k, e}) {
						return
					}
				}
			}
		}
	}, long, structQ, "lines up to 65.5 kB, files up to 10000 lines")
	// the same as plain text
	longTxt := func(s []int) *Doc {
		var b strings.Builder
		var sec drv.Sec
		n := 0
		line := func(t string, u ...string) {
			n++
			b.WriteString(t + []string{"\n", "\r\n"}[s[2]])
			for _, x := range u {
				sec.Links = append(sec.Links, drv.Lnk{URL: x, Line: n})
			}
		}
		pad := strings.Repeat([]string{"x ", "w"}[s[3]], s[0]/(2-s[3])) + []string{"", " "}[s[3]]
		for i := 0; i < s[1]; i++ {
			line("filler")
		}
		line(pad+A.url, A.url)
		line(B.url+" "+pad, B.url)
		line("")
		line("last "+A2.url+" "+B.url, A2.url, B.url)
		return &Doc{Flag: "txt", Content: b.String(), Sec: &sec}
	}
	var scale []int
	for _, k := range []int{8, 10, 12, 13, 15, 16} {
		for _, d := range []int{-40, -17, -16, -15, -14, -2, 0, 2} {
			if n := 1<<k + d; n+len(A.url) < 65530 {
				scale = append(scale, n)
			}
		}
	}
	scales := func(yield func([]int) bool) {
		for _, p := range append([]int{0}, scale...) {
			for _, k := range []int{0, 1} {
				for e := 0; e < 4; e++ {
					if p > 8300 && e >= 2 {
						break // matching of a long word as plain text takes a square of time
					}
					if !yield([]int{p, k, e & 1, e >> 1}) {
						return
					}
				}
			}
		}
		for _, k := range []int{126, 127, 128, 253, 254, 255, 256, 32766, 32767, 65533, 65534, 65535, 65536} {
			for e := 0; e < 2; e++ {
				if !yield([]int{7, k, e, 0}) {
					return
				}
			}
		}
	}
	batch = 6
	ex("txt-long", scales, longTxt, structQ, "lines of 2^k bytes and some more or less, k of 8..16, by words or one word; up to 65540 lines; LF and CRLF")
	ex("org-scale", scales, func(s []int) *Doc {
		o := newOrg([]string{"\n", "\r\n"}[s[2]])
		pad := strings.Repeat([]string{"x ", "w"}[s[3]], s[0]/(2-s[3])) + []string{"", " "}[s[3]]
		for i := 0; i < s[1]; i++ {
			o.Line("filler")
		}
		o.Heading(1, " ", strings.TrimSpace("H "+pad), "")
		o.Line(pad+A.url, drv.Lnk{URL: A.url})
		o.Heading(2, " ", "I", "")
		o.Line(B.text+" "+pad, lnks(B)...)
		o.Line(A2.text, lnks(A2)...)
		return o.Doc(true)
	}, structQ, "headings and lines of the same lengths and numbers")
	batch = 400
	// characters of URLs and descriptions
	var chars []string
	for b := byte(' '); b < 0x7f; b++ {
		chars = append(chars, string(b))
	}
	chars = append(chars, "\u00e9", "\u0416", "\u20ac", "\u4e2d", "\U0001f600", "e\u0301")
	charURL := func(ch string) string { return "http://c.org/p" + ch + "q" }
	var charQ [][]string
	for _, ch := range chars {
		charQ = append(charQ, []string{charURL(ch)})
	}
	charQ = append(charQ, []string{"http://c.org/p"}, []string{"http://c.org/"})
	char := func(s []int) *Doc {
		ch := chars[s[1]]
		u := charURL(ch)
		o := newOrg("")
		switch s[0] {
		case 0: // bracket
			if strings.Contains("[]\\", ch) {
				o.Line("")
			} else {
				o.Line("t [["+u+"]] e", drv.Lnk{URL: u})
			}
		case 1: // angle
			if ch == ">" {
				o.Line("<http://c.org/p>q>", drv.Lnk{URL: "http://c.org/p"})
			} else {
				o.Line("t <"+u+"> e", drv.Lnk{URL: u})
			}
		case 2, 3: // plain, followed by a blank or by the end of the line
			if strings.Contains("[]()<> ", ch) {
				o.Line("")
			} else {
				o.Line("t "+u+[]string{"", " e"}[s[0]-2], drv.Lnk{URL: u})
			}
		case 4: // plain with the character at its end
			switch {
			case strings.Contains("[]()<> ", ch), strings.Contains("/?&#", ch):
				o.Line("")
			case len(ch) == 1 && strings.Contains("!\"$%'*+,-.:;=@\\^_`{|}~", ch):
				o.Line("http://c.org/p"+ch+" e", drv.Lnk{URL: "http://c.org/p"})
			default:
				o.Line("http://c.org/p"+ch+" e", drv.Lnk{URL: "http://c.org/p" + ch})
			}
		case 5: // description
			if strings.Contains("[]", ch) {
				o.Line("")
			} else {
				o.Line("[[http://c.org/p][a"+ch+"b]] e", drv.Lnk{URL: "http://c.org/p", Descr: "a" + ch + "b"})
			}
		case 6:
			if strings.Contains("[] ", ch) {
				o.Line("")
			} else {
				o.Line("[[http://c.org/p]["+ch+"]] e", drv.Lnk{URL: "http://c.org/p", Descr: ch})
			}
		}
		return o.Doc(true)
	}
	ex("org-chars", core.Product(7, len(chars)), char, charQ, fmt.Sprintf("each of %d characters inside of bracket, angle and plain links, at the end of plain ones and in descriptions", len(chars)))
	// lengths
	urlOf := func(n int) string { return "http://l.org/" + strings.Repeat("abcdefgh/", n/9+1)[:n] + "z" }
	lens := []int{}
	for n := 0; n <= core.Pick(c, 120, 600); n++ {
		lens = append(lens, n)
	}
	for k := 8; k <= 14; k++ {
		lens = append(lens, 1<<k-16, 1<<k-14, 1<<k-1, 1<<k)
	}
	var lenQ [][]string
	for _, n := range lens {
		lenQ = append(lenQ, []string{urlOf(n)})
	}
	length := func(s []int) *Doc {
		u := urlOf(lens[s[1]])
		o := newOrg("")
		switch s[0] {
		case 0:
			o.Line("[["+u+"]["+u+"]]", drv.Lnk{URL: u, Descr: u})
		case 1:
			o.Line("x <"+u+">", drv.Lnk{URL: u})
		case 2:
			o.Line(u+" "+u+"0", drv.Lnk{URL: u}, drv.Lnk{URL: u + "0"})
		case 3:
			return &Doc{Flag: "txt", Content: "x " + u + "\n", Sec: &drv.Sec{Links: []drv.Lnk{{URL: u, Line: 1}}}}
		}
		return o.Doc(true)
	}
	ex("url-length", core.Product(4, len(lens)), length, lenQ, fmt.Sprintf("URLs and descriptions of %d lengths up to 16 KiB in four forms", len(lens)))
	// every character next to a link and inside of it
	var adjQ [][]string
	for i, ch := range linkChars {
		seen := map[string]bool{}
		var l []string
		for _, x := range charLines(ch, fmt.Sprintf("http://c%d.org/", i)) {
			for _, y := range x.L {
				if !seen[y.URL] {
					seen[y.URL] = true
					l = append(l, y.URL)
				}
			}
		}
		adjQ = append(adjQ, l)
		for _, u := range l {
			adjQ = append(adjQ, []string{u})
		}
	}
	core.Explore(c, "characters", fmt.Sprintf("each of %d characters before, after and inside of links, alone and in files with all lines", len(linkChars)), core.Product(len(linkChars)), func(w *core.Worker, s []int) core.Out {
		base := fmt.Sprintf("http://c%d.org/", s[0])
		var docs []*Doc
		all := newOrg("")
		lines := charLines(linkChars[s[0]], base)
		var qs [][]string
		for _, q := range adjQ {
			if len(q) > 0 && strings.HasPrefix(q[0], base) {
				qs = append(qs, q)
			}
		}
		for _, x := range lines {
			o := newOrg("")
			o.Line("first")
			for _, to := range []*orgBuilder{o, all} {
				to.Line(x.Text, x.L...)
			}
			docs = append(docs, o.Doc(true))
		}
		docs = append(docs, all.Doc(true))
		if c.ReplayCase == nil {
			c.Count("evaluations", len(lines))
			c.Distinct(all.Doc(true).Content)
		}
		bad, err := checkMentions(w, docs, qs)
		if err != nil {
			return core.Out{Err: err}
		}
		if bad != "" {
			return core.Bad(fmt.Sprintf("characters:%q", linkChars[s[0]]), "character %q: %s", linkChars[s[0]], drv.Short(bad, 2000))
		}
		return core.Out{}
	})
	// characters which some programs take for an end of a line or of a file
	odd := []string{"\r", "\v", "\f", "\b", "\x1a", "\x1c", "\x1e", "\u0085", "\u2028", "\u2029", "\x00", "\u200b", "\ufeff", "\u00a0", "\x1b[K", "\x7f", "\xe9", "\xff\xfe", "\r\r"}
	oddLine := func(line func(string, ...drv.Lnk), k int, ch string) {
		switch k {
		case 0:
			line("a" + ch + "b")
		case 1:
			line("a "+ch+" "+A.text, lnks(A)...)
		case 2:
			line(B.text+" "+ch+" "+A.text+" "+ch+" e", lnks(B, A)...)
		case 3:
			line("a" + ch + ch + "* b" + ch + "** c")
		case 4:
			line(ch)
		case 5:
			line(B.text+" "+ch, lnks(B)...)
		}
	}
	oddEnd := func(ch string, s []int) bool {
		// CR before an end of line is a part of it
		return strings.HasSuffix(ch, "\r") && (s[2] >= 4 || s[3] >= 4)
	}
	ex("org-odd", core.Product(len(odd), 4, 6, 6), func(s []int) *Doc {
		ch := odd[s[0]]
		if oddEnd(ch, s) {
			return newOrg("").Doc(true)
		}
		o := newOrg([]string{"\n", "\r\n"}[s[1]&1])
		oddLine(o.Line, s[2], ch)
		if s[1]&2 != 0 {
			o.Heading(1, " ", "H "+A.text+" h", "", lnks(A)...)
		}
		oddLine(o.Line, s[3], ch)
		o.Line(A2.text, lnks(A2)...)
		return o.Doc(s[1]&2 == 0)
	}, structQ, fmt.Sprintf("each of %d unusual characters (or bytes) in 6 kinds of lines, two such lines in a file x LF/CRLF", len(odd)))
	ex("txt-odd", core.Product(len(odd), 4, 6, 6), func(s []int) *Doc {
		ch := odd[s[0]]
		if oddEnd(ch, s) {
			return &Doc{Flag: "txt", Sec: &drv.Sec{}}
		}
		eol := []string{"\n", "\r\n"}[s[1]&1]
		var b strings.Builder
		var sec drv.Sec
		n := 0
		line := func(t string, l ...drv.Lnk) {
			n++
			b.WriteString(t + eol)
			for _, x := range l {
				sec.Links = append(sec.Links, drv.Lnk{URL: x.URL, Line: n})
			}
		}
		oddLine(line, s[2], ch)
		oddLine(line, s[3], ch)
		line("z "+A.url, drv.Lnk{URL: A.url})
		content := b.String()
		if s[1]&2 != 0 {
			content = strings.TrimSuffix(content, eol)
		}
		return &Doc{Flag: "txt", Content: content, Sec: &sec}
	}, structQ, "the same in text files")
	// many queried URLs at once
	var manyQ [][]string
	for _, n := range []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000} {
		var no []string
		for i := 0; i < n; i++ {
			no = append(no, fmt.Sprintf("http://n%d.org/x", i))
		}
		manyQ = append(manyQ, append(append([]string{}, no...), A.url, B.url), append([]string{A.url}, no...), append(append(append([]string{}, no[:n/2]...), B.url), no[n/2:]...))
	}
	ex("many", core.Product(4, len(lines)), func(s []int) *Doc { return struc([]int{s[0], s[1], 2, s[1], 4}) }, manyQ, "up to 5000 queried URLs, the recorded ones first, in the middle and last")
	// 7. several files, kinds and ways to pass them
	pool := c06Pool()
	nf := core.Pick(c, 3, 4)
	core.Explore(c, "files", fmt.Sprintf("all sequences of 1..%d files out of %d", nf, len(pool)), core.Words(len(pool), 1, nf), func(w *core.Worker, x []int) core.Out {
		var docs, pos []*Doc
		for i, k := range x {
			d := pool[k]()
			d.Name = fmt.Sprintf("%d-%s", i, d.Name)
			if d.Flag == "" {
				pos = append(pos, d)
			} else {
				docs = append(docs, d)
			}
		}
		docs = append(docs, pos...)
		c.Distinct("files" + fmt.Sprint(x))
		c.Count("evaluations", 1)
		bad, err := checkMentions(w, docs, structQ)
		return core.Out{Viol: bad, Err: err, Key: "files:" + fmt.Sprint(x)}
	})
	fifoSources(c, false)
	c06names(c)
	// 8. the same file configured twice, directly and through a symbolic link
	core.Explore(c, "twice", "one file configured twice", core.Slice([]int{0, 1}), func(w *core.Worker, x int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		o := newOrg("")
		o.Line(A.text, lnks(A)...)
		d := o.Doc(true)
		args := writeDocs(dir, []*Doc{d})
		d2 := *d.Sec
		if x == 0 {
			args = append(args, args...)
		} else {
			p := dir + "/l.org"
			if err := symlink(d.Sec.Path, p); err != nil {
				return core.Out{Err: err}
			}
			args = append(args, "-org", p)
			d2.Path = p
		}
		c.Count("evaluations", 1)
		s, bad, err := drv.Burst(backend(w, dir, args...), mentions(1, []string{A.url}, big))
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: "twice"}
		}
		r := s.Get(1)
		if r == nil || !r.OK() {
			return core.Bad("twice", "no reply %s", s.Done)
		}
		if df := drv.Diff(r.Result, []*drv.Sec{d.Sec, &d2}, matcher(A.url)); df != "" {
			return core.Bad("twice", "%s", df)
		}
		return core.Out{}
	})
}

// c06names: a file is reported under the name it has been configured with.
func c06names(c *core.Ctx) {
	ways := []string{"r.org", "./r.org", "././r.org", "d/../r.org", "d//../r.org", "./d/r.org", "d//r.org", "d/./r.org", "l/r.org", "k.org", "@/r.org", "@//r.org", "@/./d/r.org", "@/d/../r.org", "@/l/../r.org", "/@/r.org", "@/k.org",
		"R.org", "r", "d/-r.org", "e\u0301.org", "\u00e9.org", "a b.org", "a%20b.org", "~r.org", "a:b.org", "file:r.org", "-r.org", "<&>.org", "\u2028.org", "r.org~", ".r.org"}
	flags := []string{"-org", "-txt", ""}
	core.Explore(c, "names", fmt.Sprintf("each of %d spellings of file names alone and all pairs with an absolute or a plain one x org/txt/positional", len(ways)), func(yield func([]int) bool) {
		for k := range flags {
			for i := range ways {
				if !yield([]int{k, i}) {
					return
				}
				for _, j := range []int{0, 10, 11, 5} {
					if !yield([]int{k, i, j}) || !yield([]int{k, j, i}) {
						return
					}
				}
			}
		}
	}, func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		const u = "http://a.org/x"
		mkdir(dir + "/d")
		mkdir(dir + "/d/s")
		if err := symlink("d/s", dir+"/l"); err != nil {
			return core.Out{Err: err}
		}
		drv.WriteFile(dir+"/d/r.org", u+"\n")
		if err := symlink("d/r.org", dir+"/k.org"); err != nil {
			return core.Out{Err: err}
		}
		var args []string
		var secs []*drv.Sec
		for n, i := range x[1:] {
			p := strings.ReplaceAll(ways[i], "@", dir)
			full := p
			if p[0] != '/' {
				full = dir + "/" + p
			}
			if !strings.HasSuffix(p, "k.org") {
				drv.WriteFile(full, u+"\n")
			}
			if f := flags[x[0]]; f != "" {
				args = append(args, f)
			} else if p[0] == '-' && n == 0 {
				args = append(args, "--")
			}
			args = append(args, p)
			secs = append(secs, &drv.Sec{File: true, Path: p, Links: []drv.Lnk{{URL: u, Line: 1}}})
		}
		c.Count("evaluations", 1)
		c.Distinct("names" + fmt.Sprint(x))
		key := fmt.Sprintf("names:%s %q", flags[x[0]], args)
		s, bad, err := drv.Burst(backend(w, dir, args...), mentions(1, []string{u}, big))
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		r := s.Get(1)
		if r == nil || !r.OK() {
			return core.Bad(key, "no links are reported with sources %q: %s", args, drv.Short(s.Done.String(), 900))
		}
		if df := drv.Diff(r.Result, secs, matcher(u)); df != "" {
			return core.Bad(key, "sources %q: %s", args, df)
		}
		return core.Out{}
	})
}

func c06Pool() []func() *Doc {
	A, A2, B := orgToks[0], orgToks[12], orgToks[1]
	org := func(name, flag string, f func(o *orgBuilder)) func() *Doc {
		return func() *Doc {
			o := newOrg("")
			f(o)
			d := o.Doc(true)
			d.Name, d.Flag = name, flag
			return d
		}
	}
	return []func() *Doc{
		org("a.org", "org", func(o *orgBuilder) { o.Line(A.text, lnks(A)...) }),
		org("empty.org", "org", func(o *orgBuilder) {}),
		org("none.org", "org", func(o *orgBuilder) { o.Heading(1, " ", "none", ""); o.Line("text [[file:x]]") }),
		org("b c.org", "", func(o *orgBuilder) {
			o.Heading(1, " ", "B", "")
			o.Line(B.text, lnks(B)...)
			o.Heading(2, " ", "A", "")
			o.Line(A2.text, lnks(A2)...)
		}),
		func() *Doc {
			return &Doc{Name: "t.txt", Flag: "txt", Content: A.text + "\n* " + B.text + "\n",
				Sec: &drv.Sec{Links: []drv.Lnk{{URL: A.url, Line: 1}, {URL: B.url, Line: 2}}}}
		},
		func() *Doc {
			return &Doc{Name: "t.org.bak", Flag: "", Content: "* H\n" + A.text + "\n",
				Sec: &drv.Sec{Links: []drv.Lnk{{URL: A.url, Line: 2}}}}
		},
		// kind is set by the option, not by the suffix
		org("x.txt", "org", func(o *orgBuilder) { o.Heading(1, " ", "H", ""); o.Line(A2.text, lnks(A2)...) }),
		func() *Doc {
			return &Doc{Name: "y.org", Flag: "txt", Content: "* H\n" + A2.text + "\n",
				Sec: &drv.Sec{Links: []drv.Lnk{{URL: A2.url, Line: 2}}}}
		},
	}
}
