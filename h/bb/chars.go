package main

import (
	"strings"

	"verif/drv"
)

// Every character next to links and inside of them.

var linkChars = func() (l []string) {
	for b := rune('!'); b < 0x7f; b++ {
		if b >= '0' && b <= '9' && b != '5' || b >= 'b' && b <= 'y' || b >= 'B' && b <= 'Y' {
			continue
		}
		l = append(l, string(b))
	}
	return append(l, "\u00e9", "\u0416", "\u4e2d", "\U0001f600", "\u2014", "\u00ab", "\u00bb", "\u2026", "\u00a0", "\u3000")
}()

type charLine struct {
	Text  string
	L     []drv.Lnk
	Plain bool // no brackets of links
}

// charLines returns lines with the character ch; URLs have the given beginning,
// e.g. "http://a.org/".
func charLines(ch, base string) (r []charLine) {
	add := func(plain bool, text string, l ...drv.Lnk) {
		r = append(r, charLine{text, l, plain})
	}
	u := func(s string) drv.Lnk { return drv.Lnk{URL: base + s} }
	punct := len(ch) == 1 && strings.Contains("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", ch)
	word := !punct && len(ch) == 1
	stop := strings.Contains("[]()<>", ch)
	paren := ch == "(" || ch == ")"
	// before
	for _, lead := range []string{"", "a ", "a"} {
		t := lead + ch + base + "x"
		if ch == "_" || word {
			add(true, t)
		} else {
			add(true, t, u("x"))
			add(true, lead+ch+ch+base+"x e", u("x"))
		}
	}
	// after
	in := ch
	if punct && ch != "/" {
		in = ""
	}
	add(true, base+"x"+ch, u("x"+in))
	add(true, base+"x"+ch+" e", u("x"+in))
	add(true, "a "+base+"x"+ch+ch+"\te", u("x"+in+in))
	if stop {
		add(true, base+"x"+ch+"y", u("x"))
	} else {
		add(true, base+"x"+ch+"y", u("x"+ch+"y"))
		add(true, base+ch+"y e", u(ch+"y"))
		add(true, base+"("+ch+")", u("("+ch+")"))
		add(true, base+"x"+ch+ch+"y e", u("x"+ch+ch+"y"))
	}
	// around
	if !word && ch != "_" && ch != "/" && punct {
		add(true, ch+base+"x"+ch, u("x"))
		if ch != "<" && ch != ">" && !paren {
			add(true, ch+base+"x"+ch+" "+ch+base+"y"+ch, u("x"), u("y"))
		}
	}
	// inside
	if ch != "[" && ch != "]" && ch != "\\" {
		add(false, "[["+base+"x"+ch+"]]", u("x"+ch))
		add(false, "[["+base+ch+"x y]]", u(ch+"x y"))
		add(false, "a [["+base+"x]["+ch+"]] b", drv.Lnk{URL: base + "x", Descr: ch})
		add(false, "[["+base+"x][d"+ch+"d]]"+ch, drv.Lnk{URL: base + "x", Descr: "d" + ch + "d"})
	}
	if ch != ">" {
		add(false, "<"+base+"x"+ch+">", u("x"+ch))
		add(false, "<"+base+ch+" x>"+ch, u(ch+" x"))
	}
	return
}
