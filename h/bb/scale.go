package main

import (
	"fmt"
	"os"
	"strings"

	"verif/core"
	"verif/drv"
)

// scaleN returns counts from 1 to 40, around powers of two and of ten.
func scaleN(top int) (l []int) {
	for n := 1; n <= 40 && n <= top; n++ {
		l = append(l, n)
	}
	for _, n := range []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4096} {
		if n <= top {
			l = append(l, n)
		}
	}
	return
}

// c10scale: redundant tails and URLs of any length.
func c10scale(c *core.Ctx) {
	ns := scaleN(core.Pick(c, 257, 1025))
	core.Explore(c, "long tails", fmt.Sprintf("tails with runs of N slashes, ampersands or of number signs, N of %v, and hosts of N characters, in both schemes; every beginning of both spellings is recorded", ns), func(yield func(eqCase) bool) {
		for _, n := range ns {
			sl, am := strings.Repeat("/", n), strings.Repeat("&", n)
			tails := []string{sl, "?" + am, "/?" + am + "#", sl + "?" + am + "#", sl + "?#", "a" + sl, am, sl + "#", strings.Repeat("#", n), strings.Repeat("?", n), "/" + strings.Repeat("a", n) + "/?&#", strings.Repeat("/?&#", n), strings.Repeat("/a", n) + "/"}
			for k, t := range tails {
				for _, b := range []string{"http:", "https:"} {
					if n > 100 && k%3 > 0 && b == "http:" {
						continue
					}
					q := b + "//h" + t
					rec := map[string]int{}
					for _, u := range []string{q, swap(q)} {
						for i := len(b) + 3; i <= len(u); i++ {
							if n < 130 || i < len(b)+9 || i > len(u)-9 || i&(i-1) == 0 || i%50 == 0 {
								rec[u[:i]] = 1
							}
						}
						rec[u+"/"] = 1
						rec[u+"a"] = 1
					}
					if !yield(eqCase{keys(rec), []string{q}}) {
						return
					}
				}
			}
		}
	}, func(w *core.Worker, x eqCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", len(x.Queries))
		}
		return c10run(w, x)
	})
}

// c12scale: any number of extra arguments and of configured files.
func c12scale(c *core.Ctx, ex func(space, bounds string, cases func(func(emCase) bool))) {
	ns := scaleN(core.Pick(c, 129, 1000))
	ex("many", fmt.Sprintf("N different or equal extra arguments and N configured files, N of %v", ns), func(yield func(emCase) bool) {
		for _, n := range ns {
			for k := 0; k < 2; k++ {
				var x emCase
				for i := 0; i < n; i++ {
					if k == 0 {
						x.User = append(x.User, fmt.Sprintf("arg %d", i))
					} else {
						x.User = append(x.User, "same")
						x.Names = append(x.Names, fmt.Sprintf("f%d.org", i))
					}
				}
				x.Reqs = []emReq{
					{"capture", capture("org-protocol", "org-protocol:/x", nil), "o"},
					{"burl.visit", map[string]any{"file": "@/a.org", "lineNo": n}, "o"},
					{"burl.visit", map[string]any{"file": fmt.Sprintf("@/f%d.org", n-1)}, "o"},
					{"burl.visit", map[string]any{"file": fmt.Sprintf("@/f%d.org", n/2), "lineNo": 3}, "o"},
					{"burl.visit", map[string]any{"file": fmt.Sprintf("@/f%d.org", n)}, "o"},
					{"linkremark.capture", capture("org", "org-protocol:/x", nil), "o"},
				}
				if !yield(x) {
					return
				}
			}
		}
	})
}

// c15scale: any number and length of values.
func c15scale(c *core.Ctx, run func(w *core.Worker, x wrapCase) core.Out) {
	ns := scaleN(core.Pick(c, 257, 1025))
	core.Explore(c, "many", fmt.Sprintf("N values of each list option or of all of them, different or equal, N of %v; values of 2^k-1, 2^k and 2^k+1 characters, k of 4..16", ns), func(yield func(wrapCase) bool) {
		for _, n := range ns {
			for k := 0; k < 6; k++ {
				x := wrapCase{ExeDir: "e", Target: "w", Files: []string{"same.org"}}
				add := func(opt, v string) { x.Opts = append(x.Opts, opt, v) }
				for i := 0; i < n; i++ {
					f := fmt.Sprintf("f%d.org", i)
					if k == 1 || k == 4 {
						x.Files = append(x.Files, f)
					}
					switch k {
					case 0:
						add("-emacsarg", fmt.Sprintf("a '%d", i))
					case 1:
						add([]string{"-org", "-txt"}[i/3%2], "@"+f)
					case 2:
						add("-scheme", fmt.Sprintf("s%d", i))
					case 3:
						add("-emacsarg", "same")
						add("-scheme", "same")
						add("-org", "@same.org")
					case 4:
						add("-emacsarg", fmt.Sprint(i))
						add("-scheme", fmt.Sprintf("s%d:", i))
						add("-txt", "@"+f)
						if i%7 == 6 {
							add("-log", fmt.Sprint("@", i, ".log"))
						}
					case 5:
						if i == 0 {
							add("-emacsarg", "")
							add("-scheme", "")
						}
						add("-emacsarg", fmt.Sprint(i%5))
						add("-scheme", fmt.Sprint("s", i%3))
					}
				}
				if k == 4 {
					for i := 0; i < n; i++ {
						x.Opts = append(x.Opts, fmt.Sprintf("@f%d.org", n-1-i))
					}
				}
				if n > 130 && k == 3 {
					continue
				}
				if !yield(x) {
					return
				}
			}
		}
		for k := 4; k <= 16; k++ {
			for d := -1; d <= 1; d++ {
				n := 1<<k + d
				for _, s := range []string{"x", "'", "é", "\n"} {
					v := strings.Repeat(s, n/len(s))
					if !yield(wrapCase{ExeDir: "e", Target: "w", Opts: []string{"-emacsarg", v, "-emacsclient", v + "y", "-scheme", "z" + v}}) {
						return
					}
				}
			}
		}
	}, run)
}

type schemesCase struct {
	N     int
	Reset bool
	Len   int
}

// c25scale: any number and length of schemes.
func c25scale(c *core.Ctx) {
	ns := scaleN(core.Pick(c, 257, 1025))
	core.Explore(c, "many", fmt.Sprintf("N schemes, N of %v, added to default ones or replacing them; names of 1..64, 100, 255..257 characters", ns), func(yield func(schemesCase) bool) {
		for _, n := range ns {
			for _, r := range []bool{false, true} {
				if !yield(schemesCase{n, r, 0}) {
					return
				}
			}
		}
		for n := 1; n <= 64; n++ {
			if !yield(schemesCase{3, n%2 == 0, n}) {
				return
			}
		}
		for _, n := range []int{100, 255, 256, 257} {
			if !yield(schemesCase{3, false, n}) {
				return
			}
		}
	}, func(w *core.Worker, x schemesCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var args []string
		if x.Reset {
			args = append(args, "-scheme", "")
		}
		o := newOrg("")
		sec := &drv.Sec{File: true}
		var queries []string
		add := func(s string, ok bool) {
			for i, t := range []string{"w %s://h/p, x", "<%s:a>", "[[%s:b][d]]", "%s:cc"} {
				o.Line(fmt.Sprintf(t, s))
				u := s + []string{"://h/p", ":a", ":b", ":cc"}[i]
				if ok {
					l := drv.Lnk{URL: u, Line: o.line}
					if i == 2 {
						l.Descr = "d"
					}
					sec.Links = append(sec.Links, l)
				}
				queries = append(queries, u)
			}
		}
		name := func(i int) string {
			s := fmt.Sprintf("s%dx", i*7%10007)
			if x.Len > 0 {
				s = strings.Repeat("n", x.Len-1) + string(rune('a'+i))
			}
			return s
		}
		for i := 0; i < x.N; i++ {
			args = append(args, "-scheme", name(i)+[]string{"", ":"}[i%2])
			if x.N < 64 || i < 8 || i > x.N-8 || i%37 == 0 || i&(i-1) == 0 {
				add(name(i), true)
			} else {
				add(name(i), true)
				queries = queries[:len(queries)-3]
			}
		}
		add(name(x.N), false)
		add("http", !x.Reset)
		add("other", false)
		d := &Doc{Content: o.Doc(true).Content, Flag: "org", Sec: sec}
		args = append(args, writeDocs(dir, []*Doc{d})...)
		var bodies [][]byte
		for i, q := range queries {
			bodies = append(bodies, mentions(i, []string{q}, big))
		}
		key := fmt.Sprint("many:", x)
		s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint("many", x))
		}
		for i, q := range queries {
			r := s.Get(i)
			if r == nil || !r.OK() {
				return core.Bad(key, "%+v: no result for %q: %s", x, q, drv.Short(s.Done.String(), 500))
			}
			if df := drv.Diff(r.Result, []*drv.Sec{sec}, matcher(q)); df != "" {
				return core.Bad(key, "%+v, query %q: %s", x, q, df)
			}
		}
		return core.Out{}
	})
}

type keptCase struct {
	Size     int // bytes of previous content
	Sessions int // in turn
	Msgs     int // requests with diagnostics in each
	Via      int // 0 plain path, 1 symbolic link, 2 the file has another name, 3 mode 0200, 4 mode 0644
}

// c26kept: whatever the log file holds and however it grows, nothing is lost.
func c26kept(c *core.Ctx, reqs [][]byte) {
	top := core.Pick(c, 24, 27)
	core.Explore(c, "kept", fmt.Sprintf("log files of 0, 1, 2^k-1, 2^k, 2^k+1 bytes, k of 1..%d, reached by its name, a symbolic link, or having a hard link, of modes 0600, 0200, 0644; 1..40, 100 sessions in turn; 1..1025 requests with diagnostics in a session", top), func(yield func(keptCase) bool) {
		sizes := []int{0, 1}
		for k := 1; k <= top; k++ {
			sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
		}
		for i, n := range append(sizes, 1000000, 10000001) {
			for v := 0; v < 5; v++ {
				if n < 1<<20 || i%5 == v {
					if !yield(keptCase{n, 1, 2, v}) {
						return
					}
				}
			}
		}
		for _, n := range append(scaleN(40), 100) {
			for v := 0; v < 2; v++ {
				if !yield(keptCase{v * 1000, n, 1 + v, v}) {
					return
				}
			}
		}
		for _, n := range scaleN(core.Pick(c, 1025, 4096)) {
			if !yield(keptCase{0, 1, n, 0}) {
				return
			}
		}
	}, func(w *core.Worker, x keptCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		key := fmt.Sprintf("log-kept:%+v", x)
		real := dir + "/real.log"
		old := strings.Repeat("previous line 12\n", x.Size/17+1)[:x.Size]
		drv.WriteFile(real, old)
		os.Chmod(real, []os.FileMode{0600, 0600, 0600, 0200, 0644}[x.Via])
		file := real
		switch x.Via {
		case 1:
			file = dir + "/link"
			if err := os.Symlink("real.log", file); err != nil {
				return core.Out{Err: err}
			}
		case 2:
			file = dir + "/other.log"
			if err := os.Link(real, file); err != nil {
				return core.Out{Err: err}
			}
		}
		var errRef []string
		for n := 0; n <= x.Sessions; n++ {
			var bodies [][]byte
			for i := 0; i < x.Msgs; i++ {
				p := make([]string, 17)
				p[0] = fmt.Sprintf("message%d-", i)
				if n > 0 {
					p[1] = fmt.Sprintf("session%d-", n)
				}
				bodies = append(bodies, drv.Req(i, "linkremark.linkSet", map[string]any{"prefix": p}))
			}
			log := file
			if n == 0 {
				log = "-"
			}
			s, bad, err := drv.Burst(backend(w, dir, "-log", log), bodies...)
			if err != nil || bad != "" {
				return core.Out{Err: err, Viol: bad, Key: key}
			}
			for i := range bodies {
				if s.Get(i) == nil {
					return core.Bad(key, "%+v: no reply to request %d", x, i)
				}
			}
			if n == 0 {
				errRef = logLines(s.Done.Stderr)
			} else if len(s.Done.Stderr) != 0 {
				return core.Bad(key, "%+v: output to stderr: %.300q", x, s.Done.Stderr)
			}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint("kept", x))
		}
		data, err := os.ReadFile(real)
		if err != nil {
			return core.Bad(key, "%+v: log file: %v", x, err)
		}
		if !strings.HasPrefix(string(data), old) {
			return core.Bad(key, "%+v: earlier content of the log is lost, %d bytes are left", x, len(data))
		}
		if got := len(logLines(data[len(old):])); x.Size%17 != 0 && strings.HasSuffix(old, "\n") == false && got < x.Sessions*len(errRef)-1 || got < x.Sessions*len(errRef) && (x.Size == 0 || x.Size%17 == 0) {
			return core.Bad(key, "%+v: %d lines are added to the log by %d sessions, each writes %d lines to the standard error", x, got, x.Sessions, len(errRef))
		}
		for n := 1; n <= x.Sessions; n++ {
			for i := 0; i < x.Msgs && len(errRef) >= x.Msgs; i++ {
				if x.Sessions*x.Msgs < 200 || i%97 == 0 || i == x.Msgs-1 {
					if strings.Contains(strings.Join(errRef, "\n"), fmt.Sprintf("message%d-", i)) && !strings.Contains(string(data[len(old):]), fmt.Sprintf("message%d- session%d-", i, n)) {
						return core.Bad(key, "%+v: no diagnostics about request %d of session %d", x, i, n)
					}
				}
			}
		}
		return core.Out{}
	})
}

// c25alike: configured and other schemes that resemble each other.
func c25alike(c *core.Ctx) {
	names := []string{"foo", "Foo", "FOO", "fo", "foobar", "oo", "fooo", "foo1", "foo11", "foo-x", "bar", "o"}
	k := core.Pick(c, 3, 4)
	core.Explore(c, "look-alike", fmt.Sprintf("every sequence of up to %d of the schemes %q, which differ by case or are a part of each other, added to default ones or replacing them; the file has links of all of them", k, names), func(yield func([]int) bool) {
		for wd := range core.Words(len(names), 1, k) {
			for r := 0; r < 2; r++ {
				if !yield(append([]int{r}, wd...)) {
					return
				}
			}
		}
	}, func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var args []string
		on := map[string]bool{}
		if x[0] == 1 {
			args = append(args, "-scheme", "")
		}
		for i, n := range x[1:] {
			on[names[n]] = true
			args = append(args, "-scheme", names[n]+[]string{"", ":"}[(i+n)%2])
		}
		o := newOrg("")
		sec := &drv.Sec{File: true}
		var queries []string
		for _, s := range names {
			for i, t := range []string{"w %s://h/p, x", "<%s:aa>", "[[%s:bb][d]]", "%s:cc", "q %s:dd %s:ee"} {
				o.Line(strings.ReplaceAll(t, "%s", s))
				us := []string{s + []string{"://h/p", ":aa", ":bb", ":cc", ":dd"}[i]}
				if i == 4 {
					us = append(us, s+":ee")
				}
				for _, u := range us {
					if on[s] {
						l := drv.Lnk{URL: u, Line: o.line}
						if i == 2 {
							l.Descr = "d"
						}
						sec.Links = append(sec.Links, l)
					}
					queries = append(queries, u)
				}
			}
		}
		d := &Doc{Content: o.Doc(true).Content, Flag: "org", Sec: sec}
		args = append(args, writeDocs(dir, []*Doc{d})...)
		var bodies [][]byte
		for i, s := range names {
			n := len(queries) / len(names)
			_ = s
			bodies = append(bodies, mentions(i, queries[i*n:i*n+n], big))
		}
		bodies = append(bodies, mentions(len(names), queries, big))
		key := fmt.Sprint("alike:", x)
		s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(key)
		}
		for i := range bodies {
			r := s.Get(i)
			q := queries
			if i < len(names) {
				n := len(queries) / len(names)
				q = queries[i*n : i*n+n]
			}
			if r == nil || !r.OK() {
				return core.Bad(key, "schemes %q: no result for %q: %s", args, q, drv.Short(s.Done.String(), 500))
			}
			match := map[string]bool{}
			for _, u := range q {
				match[u] = true
			}
			if df := drv.Diff(r.Result, []*drv.Sec{sec}, func(u string) bool { return match[u] }); df != "" {
				return core.Bad(key, "options %q, query %q: %s", args, q, df)
			}
		}
		return core.Out{}
	})
}
