package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"

	"verif/core"
)

type rankCase struct {
	Query []string
	Cand  []string // in the order of reading
	Limit int      // 0: not specified
	Tol   int      // negative: not specified
}

// wordDistance is what a query word costs for a candidate given what is left
// of the tolerance. ok is false if it does not fit.
func wordDistance(q, word string, left int) (int, bool) {
	d := bestSub(q, word)
	return d, d <= left
}

func (x *rankCase) expected() []string {
	tol, limit := 5, 10
	if x.Tol >= 0 {
		tol = x.Tol
	}
	if x.Limit > 0 {
		limit = x.Limit
	}
	type item struct {
		d int
		w string
	}
	var l []item
next:
	for _, w := range x.Cand {
		sum := 0
		for _, q := range x.Query {
			d, ok := wordDistance(q, w, tol-sum)
			if !ok {
				continue next
			}
			sum += d
		}
		l = append(l, item{sum, w})
	}
	sort.SliceStable(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.d != b.d {
			return a.d < b.d
		}
		if len(a.w) != len(b.w) {
			return len(a.w) < len(b.w)
		}
		return a.w < b.w
	})
	if len(l) > limit {
		l = l[:limit]
	}
	out := []string{}
	for _, i := range l {
		out = append(out, fmt.Sprintf("%d %s", i.d, i.w))
	}
	return out
}

func (x *rankCase) run() (bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	var limit *int
	var tol *burl_fuzzy.EditorDistance
	if x.Limit > 0 {
		limit = &x.Limit
	}
	if x.Tol >= 0 {
		t := burl_fuzzy.EditorDistance(x.Tol)
		tol = &t
	}
	h := burl_fuzzy.ProcessUrlSource(x.Query, func(cb func(string) bool) {
		for _, w := range x.Cand {
			if !cb(w) {
				return
			}
		}
	}, limit, tol)
	// The result is sorted, the best candidate is the last one.
	got := []string{}
	for i := len(h) - 1; i >= 0; i-- {
		got = append(got, fmt.Sprintf("%d %s", h[i].Weight, h[i].Word))
	}
	if want := x.expected(); !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("got %q instead of %q", got, want)
	}
	return ""
}

func c20(c *core.Ctx) {
	c.Rule("ProcessUrlSource over every order of every candidate set compared with sorting all qualifying candidates; non-trivial: distinct (query, candidates, limit, tolerance)")
	c.Assume("query words are not empty, the limit is positive")
	run := func(w *core.Worker, x rankCase) core.Out {
		bad := x.run()
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint(x))
		}
		if bad != "" {
			return core.Bad("rank:"+core.ShortHash(fmt.Sprint(x.Query, x.Limit, x.Tol)), "query %q, limit %d, tolerance %d, candidates %q: %s", x.Query, x.Limit, x.Tol, x.Cand, bad)
		}
		return core.Out{}
	}
	pool := []string{"abcd", "abdc", "abc", "xabcdx", "abxd", "zabcd", "bcd", "aabcd", "q", "abcdabcd"}
	queries := [][]string{{"abcd"}, {"ab"}, {"ab", "cd"}, {"abcd", "abcd"}, {"a"}, {"abcdef"}, {}, {"abcdefgh", "x"}}
	core.Explore(c, "orders", "every subset of up to 5 (6) of 10 candidates in every order, 8 queries, limits 1..4, tolerances 0..5 and unspecified", func(yield func(rankCase) bool) {
		k := core.Pick(c, 4, 5)
		for s := range core.Subsets(len(pool)) {
			if len(s) == 0 || len(s) > k {
				continue
			}
			for p := range core.Perms(len(s)) {
				cand := []string{}
				for _, i := range p {
					cand = append(cand, pool[s[i]])
				}
				for _, q := range queries {
					for limit := 0; limit <= 3; limit++ {
						for _, tol := range []int{-1, 0, 1, 2, 3} {
							if len(s) == k && (tol == 3 || limit == 0) {
								continue
							}
							if !yield(rankCase{q, cand, limit, tol}) {
								return
							}
						}
					}
				}
			}
		}
	}, run)
	core.Explore(c, "repeats", "sequences of candidates with repetitions up to length 6 (7) over 4 candidates", func(yield func(rankCase) bool) {
		four := []string{"abcd", "abdc", "xbcd", "abcdx"}
		for w := range core.Words(4, 1, core.Pick(c, 6, 7)) {
			cand := []string{}
			for _, k := range w {
				cand = append(cand, four[k])
			}
			for limit := 1; limit <= 4; limit++ {
				for _, q := range [][]string{{"abcd"}, {"ab", "dc"}} {
					if !yield(rankCase{q, cand, limit, 2}) {
						return
					}
				}
			}
		}
	}, run)
	core.Explore(c, "many", "rotations and reversals of streams of 8..40 candidates around the limit", func(yield func(rankCase) bool) {
		for n := 8; n <= 40; n++ {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("http://%s.org/%s", strings.Repeat("a", i*7%5+1), strings.Repeat("page", i%3)+fmt.Sprint(i)))
			}
			for r := 0; r < n; r++ {
				cand := append(append([]string{}, l[r:]...), l[:r]...)
				for rev := 0; rev < 2; rev++ {
					if rev == 1 {
						cand = append([]string{}, cand...)
						for i, j := 0, len(cand)-1; i < j; i, j = i+1, j-1 {
							cand[i], cand[j] = cand[j], cand[i]
						}
					}
					for _, limit := range []int{0, 1, n - 1, n, n + 1, 10} {
						for _, q := range [][]string{{"paeg1"}, {"aaa", "page"}, {"org"}} {
							if !yield(rankCase{q, cand, limit, -1}) {
								return
							}
						}
					}
				}
			}
		}
	}, run)
	core.Explore(c, "scale", "700 candidates in 4 orders, limits of 1..40, 49..65, 98..101, 127..129, 255..257, 500, 699..701 and unspecified; queries of 1..40 words", func(yield func(rankCase) bool) {
		var l []string
		for i := 0; i < 700; i++ {
			l = append(l, fmt.Sprintf("http://%s.org/%s%d", strings.Repeat("a", i*7%5+1), strings.Repeat("page", i%3), i*i%977))
		}
		limits := []int{0}
		for n := 1; n <= 40; n++ {
			limits = append(limits, n)
		}
		for n := 49; n <= 65; n++ {
			limits = append(limits, n)
		}
		limits = append(limits, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 699, 700, 701)
		var long []string
		for i := 0; i < 40; i++ {
			long = append(long, []string{"page", "aa", "org"}[i%3])
		}
		for o := 0; o < 4; o++ {
			cand := append([]string{}, l...)
			for i := range cand {
				switch o {
				case 1:
					cand[i] = l[len(l)-1-i]
				case 2:
					cand[i] = l[i*7%len(l)]
				case 3:
					cand[i] = l[(i*1237+5)%len(l)]
				}
			}
			for _, n := range limits {
				for k, q := range [][]string{{"paeg1"}, {"aaa", "page"}, long, long[:17], long[:33]} {
					if n == 0 || n < 5 || (n+o+k)%core.Pick(c, 5, 1) == 0 {
						if !yield(rankCase{q, cand, n, 3}) {
							return
						}
					}
				}
			}
		}
	}, run)
	core.Explore(c, "ties", "every sequence of up to 4 (5) of 9 candidates of the same length which differ by letter case, digits, marks or non-ASCII letters", func(yield func(rankCase) bool) {
		nine := []string{"http://abcd/x", "http://abcd/X", "http://Abcd/x", "HTTP://ABCD/X", "http://abcd/1", "http://abcd/_", "http://abcd/~", "http://abcd/\u00e9", "http://abcd/\u00c9"}
		for w := range core.Words(len(nine), 1, core.Pick(c, 4, 5)) {
			cand := []string{}
			for _, k := range w {
				cand = append(cand, nine[k])
			}
			for limit := 1; limit <= 3; limit++ {
				if limit > len(cand) {
					continue
				}
				for _, q := range [][]string{{"abdc"}, {"htp", "bc"}, {}} {
					if !yield(rankCase{q, cand, limit, 2}) {
						return
					}
				}
			}
		}
	}, run)
	words := []string{"ba", "cd", "fe", "gih", "xyz", "e", "abc"}
	pages := []string{"http://ab/cd/ef/ghi", "http://abcdefghi", "ab cd ef ghi xyz", "gihfecdba", "q"}
	core.Explore(c, "words", "queries of up to 4 (5) words out of 7 most of which are found inexactly, 5 candidates, all tolerances 0..6", func(yield func(rankCase) bool) {
		for wd := range core.Words(len(words), 0, core.Pick(c, 4, 5)) {
			q := []string{}
			for _, k := range wd {
				q = append(q, words[k])
			}
			for tol := -1; tol <= 6; tol++ {
				if !yield(rankCase{q, pages, 5, tol}) || !yield(rankCase{q, pages, 2, tol}) {
					return
				}
			}
		}
	}, run)
	abc := []string{"a", "B", "\u0436", "\u0416", "\u4e2d", "\u00c9"}
	texts := []string{"a", "\u0436b", "\u0416B\u0436", "Ab\u00e9", "http://AB.org/\u0436", "\u4e2da\u4e2dB", "\u00e9\u00c9"}
	core.Explore(c, "letters", "every query of one word of 1..4 (5) or two words of 1..2 characters out of 6 (upper and lower case, of one to three bytes) over 7 candidates in two orders, tolerances 0..4, limits 2 and 7", func(yield func(rankCase) bool) {
		var one, two []string
		for wd := range core.Words(len(abc), 1, core.Pick(c, 4, 5)) {
			q := ""
			for _, k := range wd {
				q += abc[k]
			}
			one = append(one, q)
			if len(wd) <= 2 {
				two = append(two, q)
			}
		}
		var l [][]string
		for _, q := range one {
			l = append(l, []string{q})
		}
		for _, q := range two {
			for _, r := range two {
				l = append(l, []string{q, r})
			}
		}
		back := append([]string{}, texts...)
		for i := range texts {
			back[i] = texts[len(texts)-1-i]
		}
		for _, q := range l {
			for tol := 0; tol <= 4; tol++ {
				if !yield(rankCase{q, texts, 7, tol}) || !yield(rankCase{q, back, 2, tol}) {
					return
				}
			}
		}
	}, run)
	c.Sample(rankCase{[]string{"ab", "cd"}, []string{"abdc", "abcd"}, 1, 2})
}
