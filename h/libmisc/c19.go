package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"

	"verif/core"
)

// osaPrefix is the textbook optimal string alignment distance of a and the
// closest of the prefixes of b.
func osaPrefix(a, b []rune) int {
	d := make([][]int, len(a)+1)
	for i := range d {
		d[i] = make([]int, len(b)+1)
		for j := range d[i] {
			switch {
			case i == 0:
				d[i][j] = j
			case j == 0:
				d[i][j] = i
			default:
				v := d[i-1][j-1]
				if a[i-1] != b[j-1] {
					v++
				}
				v = min(v, d[i-1][j]+1, d[i][j-1]+1)
				if i > 1 && j > 1 && a[i-1] == b[j-2] && a[i-2] == b[j-1] {
					v = min(v, d[i-2][j-2]+1)
				}
				d[i][j] = v
			}
		}
	}
	return slices.Min(d[len(a)])
}

// bestSub tries every substring.
func bestSub(p, w string) int {
	a, b := []rune(strings.ToLower(p)), []rune(strings.ToLower(w))
	best := len(a)
	for i := range b {
		// the distance to anything longer exceeds that of an empty substring
		best = min(best, osaPrefix(a, b[i:min(len(b), i+2*len(a))]))
	}
	return best
}

type distCase struct {
	P  string
	Wl []string
}

func c19(c *core.Ctx) {
	c.Rule("SearchDistanceDL compared with the minimum over all substrings of the textbook optimal string alignment distance; non-trivial: distinct (pattern, text) pairs")
	c.Assume("patterns are shorter than 32767 characters")
	run := func(w *core.Worker, x distCase) (o core.Out) {
		cur := ""
		defer func() {
			if p := recover(); p != nil {
				o = core.Bad("distance:panic", "%q in %q: panic: %v", x.P, cur, p)
			}
		}()
		for _, t := range x.Wl {
			cur = t
			got := int(burl_fuzzy.SearchDistanceDL(x.P, t))
			if want := bestSub(x.P, t); got != want {
				o = core.Bad(fmt.Sprintf("distance:%s:%s", x.P, t), "distance of %q in %q is %d instead of %d", x.P, t, got, want)
				o.Min = distCase{x.P, []string{t}}
				return
			}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", len(x.Wl))
			c.Distinct(fmt.Sprint(x.P, len(x.Wl), x.Wl[0]))
		}
		return
	}
	words := func(alpha []string, lo, hi int) (l []string) {
		for w := range core.Words(len(alpha), lo, hi) {
			s := ""
			for _, k := range w {
				s += alpha[k]
			}
			l = append(l, s)
		}
		return
	}
	all := func(space string, alpha []string, p, t int) {
		wl := words(alpha, 0, t)
		core.Explore(c, space, fmt.Sprintf("alphabet %q: every pattern of 0..%d and every text of 0..%d characters", alpha, p, t), func(yield func(distCase) bool) {
			for _, pat := range words(alpha, 0, p) {
				for i := 0; i < len(wl); i += 500 {
					if !yield(distCase{pat, wl[i:min(i+500, len(wl))]}) {
						return
					}
				}
			}
		}, run)
	}
	all("ab", []string{"a", "b"}, core.Pick(c, 7, 9), core.Pick(c, 8, 10))
	all("abc", []string{"a", "b", "c"}, core.Pick(c, 5, 7), core.Pick(c, 7, 8))
	all("abcd", []string{"a", "b", "c", "d"}, core.Pick(c, 5, 6), core.Pick(c, 5, 6))
	all("runes", []string{"a", "ж", "漢"}, core.Pick(c, 4, 5), core.Pick(c, 5, 6))
	all("case", []string{"a", "A", "Ж", "ж"}, 4, core.Pick(c, 4, 5))
	// long texts and long patterns
	core.Explore(c, "longer", "patterns and texts of up to 300 characters, around 64, 128 and 256: exact, one edit at every 7th place, two edits, surrounded by other text, shifted, only a part present", func(yield func(distCase) bool) {
		for _, n := range []int{31, 32, 33, 50, 62, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300} {
			if n > 130 && !c.Thorough() && n != 256 {
				continue
			}
			for _, uni := range []bool{false, true} {
				r := []rune{}
				for i := 0; i < n; i++ {
					if uni {
						r = append(r, rune(0x430+i*i%29))
					} else {
						r = append(r, rune('a'+i*i*7%23))
					}
				}
				p := string(r)
				wl := []string{p, "xy" + p, p + "xy", p + p, string(r[:n/2]), string(r[n/2:]), string(r[1:]), string(r[:n-1]), string(r[n/2:]) + string(r[:n/2]), strings.Repeat("q", n), strings.Repeat("z ", 40) + p}
				for i := n % 7; i < n; i += core.Pick(c, 19, 7) {
					ins := string(r[:i]) + "Q" + string(r[i:])
					del := string(r[:i]) + string(r[i+1:])
					sub := string(r[:i]) + "#" + string(r[i+1:])
					wl = append(wl, ins, "pre "+del, sub+" post", del+del)
					if i+1 < n {
						wl = append(wl, string(r[:i])+string(r[i+1:i+2])+string(r[i:i+1])+string(r[i+2:]))
					}
				}
				for i := 0; i < len(wl); i += 4 {
					if !yield(distCase{p, wl[i:min(i+4, len(wl))]}) {
						return
					}
				}
			}
		}
	}, run)
	ns := core.Pick(c, []int{400, 511, 512, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4097, 8193, 20000, 32768, 65537}, []int{400, 511, 512, 513, 1000, 1023, 1025, 2047, 2049, 4095, 4097, 8193, 20000, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 200000, 1<<20 + 1})
	core.Explore(c, "very long texts", fmt.Sprintf("short patterns with at most one edit at the start, the middle or the end of texts of N characters, N of %v, and in none; in Latin and in Cyrillic", ns), func(yield func(distCase) bool) {
		for _, n := range ns {
			for _, l := range [][3]string{{"abcdefgh", "abcXdefgh", "z"}, {"abcdefgh", "abcefgh", "y "}, {"ЖАЖДА", "жажжа", "я"}, {"q", "q", "0"}, {"two words", "tow words", "1t"}} {
				fill := []rune(strings.Repeat(l[2], n))[:n]
				for _, in := range []string{l[0], l[1]} {
					r := []rune(in)
					for _, at := range []int{-1, 0, n/2 - 3, n - len(r)} {
						t := append([]rune{}, fill...)
						if at >= 0 {
							copy(t[at:], r)
						}
						if !yield(distCase{l[0], []string{string(t)}}) {
							return
						}
					}
				}
			}
		}
	}, run)
	core.Explore(c, "long", "patterns of 1..40 characters with all single and double edits at all places, embedded into texts", func(yield func(distCase) bool) {
		base := "https://example.org/wiki/page_name?q=12"
		for n := 1; n <= len(base); n++ {
			p := base[:n]
			var wl []string
			edit := func(s string) (l []string) {
				for i := 0; i <= len(s); i++ {
					l = append(l, s[:i]+"Z"+s[i:])
					if i < len(s) {
						l = append(l, s[:i]+s[i+1:], s[:i]+"#"+s[i+1:])
					}
					if i+1 < len(s) {
						l = append(l, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
					}
				}
				return
			}
			one := edit(p)
			wl = append(wl, one...)
			if n%core.Pick(c, 9, 3) == 2 {
				for _, o := range one {
					wl = append(wl, edit(o)...)
				}
			}
			var out []string
			for i, t := range wl {
				switch i % 3 {
				case 1:
					t = "pre" + t
				case 2:
					t = "xy" + t + "post fix"
				}
				if t == "" {
					continue
				}
				out = append(out, t)
			}
			for i := 0; i < len(out); i += 40 {
				if !yield(distCase{p, out[i:min(i+40, len(out))]}) {
					return
				}
			}
		}
	}, run)
	c.Sample(distCase{"abж", []string{"baж"}})
}
