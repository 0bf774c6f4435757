package main

import (
	"fmt"
	"strings"

	"verif/core"
	"verif/drv"
)

// c07: outline attribution. A file is a list of items (level, link bits).
func c07(c *core.Ctx) {
	c.Rule("a case is a batch of Org files given by sequences of (heading level, where links are); the reported tree is compared with an outline stack model; non-trivial: distinct sequences")
	U := drv.Lnk{URL: "http://a.org/x"}
	V := drv.Lnk{URL: "http://a.org/v"}
	Q := [][]string{{U.URL}, {V.URL}, {U.URL, V.URL}}
	mk := func(levels []int) func(s []int) *Doc {
		return func(s []int) *Doc {
			o := newOrg("")
			if s[0]&1 != 0 {
				o.Line("top "+U.URL, U)
			}
			for i, k := range s[1:] {
				level, bits := levels[k/4], k%4
				text := fmt.Sprintf("H%d", i)
				var l []drv.Lnk
				if bits == 1 {
					text += " " + U.URL
					l = append(l, U)
				}
				o.Heading(level, " ", text, "", l...)
				if bits == 2 {
					o.Line("body " + U.URL + " " + V.URL + " " + U.URL)
					cur := o.stack[len(o.stack)-1]
					for _, y := range []drv.Lnk{U, V, U} {
						y.Line = o.line
						cur.Links = append(cur.Links, y)
					}
				}
				if bits == 3 {
					o.Line("")
					o.Line("- "+V.URL, V)
					o.Line(V.URL, V)
				}
			}
			return o.Doc(s[0]&2 == 0)
		}
	}
	batch := 500
	ex := func(kind string, specs func(func([]int) bool), build func([]int) *Doc, bounds string) {
		core.Explore(c, kind, bounds, core.Map(core.Batch(specs, batch), func(s [][]int) specDocs { return specDocs{kind, s} }),
			func(w *core.Worker, x specDocs) core.Out {
				if c.ReplayCase == nil {
					for _, s := range x.Specs {
						c.Distinct(kind + fmt.Sprint(s))
					}
					c.Count("evaluations", len(x.Specs))
				}
				return runSpecs(w, x, build, Q)
			})
	}
	words := func(k, n int) func(func([]int) bool) {
		return func(yield func([]int) bool) {
			for wd := range core.Words(k, 1, n) {
				if !yield(append([]int{1}, wd...)) {
					return
				}
			}
		}
	}
	l1 := []int{1, 2, 3}
	n1 := core.Pick(c, 5, 6)
	ex("levels123", words(4*len(l1), core.Pick(c, 4, 5)), mk(l1), "levels {1,2,3} x 4 link placements, all sequences of 1..4 (thorough 5) headings")
	// links only below some headings, more levels, longer sequences
	two := func(levels []int) func(s []int) *Doc {
		f := mk(levels)
		return func(s []int) *Doc {
			t := []int{s[0]}
			for _, k := range s[1:] {
				t = append(t, (k/2)*4+(k%2)*2)
			}
			return f(t)
		}
	}
	l2 := []int{1, 2, 3, 4, 5}
	ex("levels1-5", words(2*len(l2), n1), two(l2), fmt.Sprintf("levels 1..5 x link or not, all sequences of 1..%d headings", n1))
	l3 := []int{1, 3, 9, 10, 11, 12, 30}
	ex("deep", words(2*len(l3), core.Pick(c, 4, 5)), two(l3), "levels {1,3,9,10,11,12,30} x link or not, all sequences of 1..4 (thorough 5) headings")
	l4 := []int{2, 4, 11, 20}
	ex("deep2", words(2*len(l4), core.Pick(c, 5, 6)), two(l4), "levels {2,4,11,20} x link or not, all sequences of 1..5 (thorough 6) headings")
	// monotone staircases up to depth 40 and back with every step size
	stair := func(s []int) *Doc {
		o := newOrg("")
		l := 1
		for ; l <= s[1]; l += s[0] {
			o.Heading(l, " ", fmt.Sprint("up", l), "")
			if s[2]&1 != 0 {
				o.Line(U.URL, U)
			}
		}
		o.Line(V.URL, V)
		for ; l >= 1; l -= s[3] {
			o.Heading(l, " ", fmt.Sprint("down", l), "")
			if s[2]&2 != 0 {
				o.Line(U.URL, U)
			}
		}
		o.Line(U.URL, U)
		return o.Doc(true)
	}
	ex("stairs", func(yield func([]int) bool) {
		for p := range core.Product(4, 40, 4, 5) {
			if !yield([]int{p[0] + 1, p[1] + 1, p[2], p[3] + 1}) {
				return
			}
		}
	}, stair, "staircases to depth 1..40 with step 1..4 up and 1..5 down x link placement")
	// long ones
	far := func(s []int) *Doc {
		n := s[1]
		o := newOrg("")
		switch s[0] {
		case 0: // a heading of the level n below and above usual ones
			o.Line(U.URL, U)
			o.Heading(1, " ", "one", "")
			o.Heading(n, " ", "deep", "")
			o.Line(U.URL, U)
			o.Heading(n+1, " ", "deeper", "")
			o.Line(V.URL, V)
			o.Heading(2, " ", "two", "")
			o.Line(U.URL, U)
			o.Heading(n, " ", "again "+U.URL, "", U)
			o.Heading(1, " ", "end "+V.URL, "", V)
		case 1: // n siblings with links
			o.Heading(1, " ", "top", "")
			for i := 0; i < n; i++ {
				l := []drv.Lnk{U, V}[i%2]
				o.Heading(2, " ", fmt.Sprint("s", i, " ", l.URL), "", l)
			}
			o.Line(U.URL, U)
		case 2: // n siblings without links before the link
			o.Heading(1, " ", "top", "")
			for i := 0; i < n; i++ {
				o.Heading(2+i%3, " ", fmt.Sprint("s", i), "")
			}
			o.Line(U.URL, U)
			for i := 0; i < n; i++ {
				o.Heading(3, " ", fmt.Sprint("t", i), "")
			}
			o.Line(V.URL, V)
		case 3: // n lines between headings and their links
			for _, l := range []int{1, 3, 4, 3, 2, 1} {
				o.Heading(l, " ", fmt.Sprint("h", l), "")
				for i := 0; i < n; i++ {
					o.Line([]string{"text", "", "- * item"}[i%3])
				}
				o.Line(U.URL, U)
			}
		case 4: // every link belongs to a top heading which is far away
			for i := 0; i < 3; i++ {
				o.Heading(1, " ", fmt.Sprint("top", i), "")
				for j := 0; j < n; j++ {
					o.Heading(2, " ", fmt.Sprint("sub", j), "")
					if j == n-1 || j == n/2 {
						o.Line(V.URL, V)
					}
				}
			}
		}
		return o.Doc(true)
	}
	fars := scaleN(core.Pick(c, 4096, 4096))
	fars = append(fars, 8193, 16385, 32769, 65537, 70000)
	batch = 4
	ex("scale", func(yield func([]int) bool) {
		for _, n := range fars {
			for k := 0; k < 5; k++ {
				if k == 0 && n == 1 || k == 1 && n > core.Pick(c, 1025, 8193) || (k == 3 || k == 2) && n > core.Pick(c, 8193, 70000) || k == 0 && n > 20000 {
					continue
				}
				if !yield([]int{k, n}) {
					return
				}
			}
		}
	}, far, fmt.Sprintf("headings of the level N among usual ones, N siblings with and without links, N lines between headings and links, N of %v", fars))
	batch = 500
	// heading syntax: blanks around the text, lines that are not headings
	seps := []string{" ", "  ", "\t", " \t "}
	texts := []string{"T", "two  words", "TODO [#A] t :tag:", "*b*", "* x", "é", ""}
	trails := []string{"", " ", "\t", "  \t"}
	syn := func(s []int) *Doc {
		o := newOrg([]string{"\n", "\r\n"}[s[4]])
		o.Heading(1, " ", "first", "")
		trail := trails[s[3]]
		sep := seps[s[1]]
		if texts[s[2]] == "" {
			trail = ""
		}
		o.Heading(s[0]+1, sep, texts[s[2]], trail)
		o.Line(U.URL, U)
		return o.Doc(true)
	}
	ex("syntax", core.Product(3, len(seps), len(texts), len(trails), 2), syn, "level x separator x text x trailing blanks x line ending")
	var htexts []string
	for b := rune('!'); b < 0x7f; b++ {
		ch := string(b)
		htexts = append(htexts, ch, ch+"a", "a"+ch, "a"+ch+"b", "a "+ch+" b", ch+ch)
	}
	for _, ch := range []string{"\u00e9", "\u0416\u0443", "\u4e2d", "\U0001f600"} {
		htexts = append(htexts, ch, "a "+ch+" b")
	}
	htexts = append(htexts, "DONE x", "[1/2] x", "[[http://d.org/][D]]", "<2021-01-01 Fri>", ":a:b:", "COMMENT x", strings.Repeat("long ", 2000)+"x", "# x", "TODO")
	ex("text", core.Product(2, len(htexts)), func(s []int) *Doc {
		o := newOrg("")
		o.Heading(s[0]+1, " ", htexts[s[1]], "")
		o.Line(U.URL, U)
		o.Heading(s[0]+2, " ", htexts[s[1]], "")
		o.Line("", nil...)
		o.Line(V.URL, V)
		return o.Doc(true)
	}, fmt.Sprintf("%d heading texts (each printable character alone, at the ends, inside, between blanks) repeated in a nested heading", len(htexts)))
	nonh := []string{"*bold*", "*", "**", " * item", "\t* item", "*\u00a0nbsp", "#* x", "-* x", "***"}
	non := func(s []int) *Doc {
		o := newOrg("")
		for _, k := range s[1:] {
			if k < len(nonh) {
				o.Line(nonh[k])
			} else if k == len(nonh) {
				o.Heading(1, " ", "H", "")
			} else {
				o.Heading(2, " ", "HH", "")
			}
			o.Line(U.URL, U)
		}
		return o.Doc(true)
	}
	ex("not-heading", words(len(nonh)+2, 3), non, "all sequences of 1..3 over lines that only look like headings and real ones")
	c.Sample(strings.ReplaceAll(two(l3)([]int{1, 3, 9, 2}).Content, "\n", "\\n"))
}
