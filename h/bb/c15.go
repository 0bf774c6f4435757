package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/drv"
)

// settings is what the options of the backend mean.
type settings struct {
	Log     string
	Disable bool
	Emacs   string
	Args    []string
	Schemes []string
	Files   []string // kind:path
}

func (s settings) String() string { js, _ := json.Marshal(s); return string(js) }

// interpret is the reference meaning of a command line (package flag syntax).
func interpret(argv []string) (settings, error) {
	s := settings{Log: "-", Emacs: "emacsclient", Schemes: []string{"<default>"}}
	list := func(l *[]string, v string) {
		if v == "" {
			*l = []string{}
		} else {
			*l = append(*l, v)
		}
	}
	for len(argv) > 0 {
		a := argv[0]
		if a == "--" {
			argv = argv[1:]
			break
		}
		if len(a) < 2 || a[0] != '-' {
			break
		}
		argv = argv[1:]
		name, val, has := strings.Cut(strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-"), "=")
		if name == "disable-link-set" {
			s.Disable = !has || val == "true"
			continue
		}
		if !has {
			if len(argv) == 0 {
				return s, fmt.Errorf("no value of %s", a)
			}
			val, argv = argv[0], argv[1:]
		}
		switch name {
		case "log":
			s.Log = val
		case "emacsclient":
			s.Emacs = val
		case "emacsarg":
			list(&s.Args, val)
		case "scheme":
			list(&s.Schemes, val)
		case "org", "txt":
			s.Files = append(s.Files, name+":"+val)
		default:
			return s, fmt.Errorf("unknown option %s", a)
		}
	}
	for _, f := range argv {
		kind := "txt"
		if strings.HasSuffix(f, ".org") {
			kind = "org"
		}
		s.Files = append(s.Files, kind+":"+f)
	}
	return s, nil
}

type wrapCase struct {
	ExeDir string   // directory of the backend below the scratch directory
	Files  []string // files to create below the scratch directory
	Opts   []string // options, "@" stands for the scratch directory
	Target string   // file name of the wrapper, "-" for stdout
	Rel    bool     // use relative file names
	GenLoc string
	RunLoc string
	Gone   bool // the executable is missing when the wrapper is run
	Link   bool // files are given through symbolic links
}

func locEnv(l string, extra ...string) []string {
	env := []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	if l != "" {
		env = append(env, "LC_ALL="+l)
	}
	return append(env, extra...)
}

func c15run(w *core.Worker, x wrapCase) core.Out {
	top := w.Fresh()
	defer rm(top)
	key := "wrapper:" + core.ShortHash(fmt.Sprint(x))
	fail := func(format string, a ...any) core.Out {
		return core.Bad(key, "%s [%.700q]", fmt.Sprintf(format, a...), fmt.Sprint(x))
	}
	herr := func(err error) core.Out { return core.Out{Err: err} }
	real := top + "/real"
	mkdir(real)
	dir := real
	if x.Link {
		// the scratch directory itself is reached through a symbolic link
		if err := os.Symlink("real", top+"/via"); err != nil {
			return herr(err)
		}
		dir = top + "/via"
	}
	exeDir := filepath.Join(dir, x.ExeDir)
	if err := os.MkdirAll(exeDir, 0755); err != nil {
		return herr(err)
	}
	exe := exeDir + "/burl_backend"
	if err := os.Link(filepath.Join(w.C.Bin, "burl_backend"), exe); err != nil {
		return herr(err)
	}
	for _, f := range x.Files {
		if name, to, ok := strings.Cut(f, "\x00"); ok { // a symbolic link
			if err := os.Symlink(to, filepath.Join(dir, name)); err != nil {
				return herr(err)
			}
			continue
		}
		p := filepath.Join(dir, f)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return herr(err)
		}
		if err := os.WriteFile(p, []byte("http://a.org/x\n"), 0644); err != nil {
			return herr(err)
		}
	}
	var opts []string
	for _, o := range x.Opts {
		base := dir + "/"
		if x.Rel {
			base = ""
		}
		o = strings.ReplaceAll(o, "@REL/", "")
		opts = append(opts, strings.ReplaceAll(o, "@", base))
	}
	target := x.Target
	gen := drv.Run{Path: exe, Args: append([]string{"-wrapper", target}, opts...), Dir: dir, Env: locEnv(x.GenLoc)}
	d, err := gen.Do()
	if err != nil {
		return herr(err)
	}
	if d.Crashed() || d.Code != 0 {
		return fail("generation failed: %s", drv.Short(d.String(), 700))
	}
	wrapper := filepath.Join(dir, target)
	if target == "-" {
		wrapper = dir + "/from stdout"
		if err := os.WriteFile(wrapper, d.Stdout, 0644); err != nil {
			return herr(err)
		}
	} else if len(d.Stdout) != 0 {
		return fail("generation prints %q", d.Stdout)
	}
	want, err := interpret(opts)
	if err != nil {
		return herr(err)
	}
	rp := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, p)
		}
		if q, err := filepath.EvalSymlinks(p); err == nil {
			return q
		}
		return p
	}
	for i, f := range want.Files {
		k, p, _ := strings.Cut(f, ":")
		want.Files[i] = k + ":" + rp(p)
	}
	if want.Log != "" && want.Log != "-" && !filepath.IsAbs(want.Log) {
		want.Log = filepath.Join(dir, want.Log)
	}
	if err := os.Remove(exe); err != nil {
		return herr(err)
	}
	rec := top + "/rec.log"
	if !x.Gone {
		if err := os.Link(filepath.Join(w.C.Bin, "fakeemacs"), exe); err != nil {
			return herr(err)
		}
	}
	other := top + "/elsewhere"
	mkdir(other)
	run := drv.Run{Path: "/bin/sh", Args: []string{wrapper}, Dir: other, Env: locEnv(x.RunLoc, "FAKE_LOG="+rec, "FAKE_PLAN=e")}
	if target != "-" && len(x.Opts)%2 == 0 {
		run.Path, run.Args = wrapper, nil // through the interpreter line
	}
	d, err = run.Do()
	if err != nil {
		return herr(err)
	}
	if x.Gone {
		frames, rest := drv.SplitFrames(d.Stdout)
		if len(frames) != 1 || len(rest) != 0 {
			return fail("no backend: output is not exactly one frame: %q", d.Stdout)
		}
		var v map[string]any
		if err := json.Unmarshal(frames[0], &v); err != nil {
			return fail("no backend: %v: %q", err, frames[0])
		}
		if v["error"] == nil || v["error"] == "" {
			return fail("no backend: no error in %q", frames[0])
		}
		return core.Out{}
	}
	runs, err := drv.FakeRuns(rec)
	if err != nil {
		return herr(err)
	}
	if len(runs) != 1 {
		return fail("backend is run %d times by the wrapper: %s", len(runs), drv.Short(d.String(), 600))
	}
	got, err := interpret(runs[0])
	if err != nil {
		return fail("%v: %q", err, runs[0])
	}
	// a log file may be spelled through the symbolic link or not
	if rp(filepath.Dir(got.Log)) == rp(filepath.Dir(want.Log)) && filepath.IsAbs(got.Log) && filepath.Base(got.Log) == filepath.Base(want.Log) {
		got.Log = want.Log
	}
	if got.String() != want.String() {
		return fail("settings differ:\n got %s\nwant %s\nargv %q", drv.Short(got.String(), 1500), drv.Short(want.String(), 1500), drv.Short(fmt.Sprintf("%q", runs[0]), 900))
	}
	return core.Out{}
}

func c15(c *core.Ctx) {
	c.Rule("a wrapper is generated by the real program, the backend executable is replaced by a program that records its arguments, the wrapper is run by /bin/sh in another directory, and the meaning of the recorded command line is compared with that of the original one; non-trivial: distinct cases")
	c.Assume("locales C, C.UTF-8, POSIX and none are those installed; settings are interpreted by an independent parser of package flag syntax")
	run := func(w *core.Worker, x wrapCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		return c15run(w, x)
	}
	var chars []string
	for i := 1; i < 256; i++ {
		chars = append(chars, string([]byte{byte(i)}))
	}
	chars = append(chars, "\u00e9", "\u20ac", "\U0001F600", "\u00a0", "\u2028", "\u202e", "e\u0301", "\u0431", "\xc3(", "\xed\xa0\x80", "\ufeff")
	var vals []string
	for _, ch := range chars {
		vals = append(vals, ch, "a"+ch+"b", ch+"x", "x"+ch, ch+ch)
	}
	active := []string{"'", "\"", "\\", "$", "`", " ", "\n", "\t", "!", "*", "?", "[", "#", "~", ";", "&", "|", "<", ">", "(", ")", "{", "}", "%", "=", "-", "\x01", "\x7f", "\u00e9", "\xff", "^", "@", ",", "0", "n", "x41"}
	for _, a := range active {
		for _, b := range active {
			vals = append(vals, a+b, "p"+a+b+"q")
		}
	}
	for _, a := range active[:10] {
		for _, b := range active[:10] {
			for _, d := range active[:10] {
				vals = append(vals, a+b+d)
			}
		}
	}
	vals = append(vals, "--help", "-h", "--", "$(touch x)", "`touch x`", "${HOME}", "$HOME", "~root", "!!", "$'\\n'", "%s", "%d%n", "\\x41", "\\101", strings.Repeat("long'\u00e9\" ", 3000), "\r\n", "a=b", "=x", "-org", "--org=/etc/passwd")
	for i, v := range vals {
		vals[i] = strings.ReplaceAll(v, "@", "%") // @ is the placeholder of this harness
	}
	locs := [][2]string{{"C.UTF-8", "C.UTF-8"}, {"C", "C"}, {"C.UTF-8", "C"}, {"C", "C.UTF-8"}, {"", ""}, {"POSIX", "C.UTF-8"}}
	nl := core.Pick(c, 2, len(locs))
	core.Explore(c, "values", fmt.Sprintf("%d values (every byte in 5 positions, pairs of %d and triples of 10 shell-active characters) as editor arguments x %d pairs of locales; batches of 40", len(vals), len(active), nl), func(yield func(wrapCase) bool) {
		for i, l := range locs {
			if i >= nl {
				break
			}
			for b := range core.Batch(core.Slice(vals), 40) {
				x := wrapCase{ExeDir: "e", Target: "w.sh", GenLoc: l[0], RunLoc: l[1]}
				for k, v := range b {
					if k%2 == 0 {
						x.Opts = append(x.Opts, "-emacsarg", v)
					} else {
						x.Opts = append(x.Opts, "--emacsarg="+v)
					}
				}
				if !yield(x) {
					return
				}
			}
		}
	}, run)
	// one character in every kind of value and in paths
	core.Explore(c, "places", fmt.Sprintf("each of %d characters in the names of the executable's directory, files, log, editor, scheme, wrapper x present or missing executable", len(chars)), func(yield func(wrapCase) bool) {
		for i, ch := range chars {
			if ch == "/" || ch == "@" {
				continue
			}
			l := locs[i%len(locs)]
			for g := 0; g < 2; g++ {
				n := "n" + ch + "m"
				x := wrapCase{ExeDir: "d" + ch + "e", Files: []string{n + ".org", ch + "t/" + n, "pos" + ch + ".org"}, Target: n + ".sh", GenLoc: l[0], RunLoc: l[1], Gone: g == 1,
					Opts: []string{"-log", "@" + n + ".log", "-emacsclient", n, "-scheme", n, "-scheme=" + "s" + ch, "-org", "@" + n + ".org", "-txt", "@" + ch + "t/" + n, "@pos" + ch + ".org"}}
				if !yield(x) {
					return
				}
				if c.Thorough() || i%4 == 0 {
					x.Rel = true
					if strings.HasPrefix(n, "-") {
						continue
					}
					if !yield(x) {
						return
					}
				}
			}
		}
		for _, n := range []int{1, 20, 60, 100, 150, 200, 230} {
			for k := 1; k < 12; k++ {
				d := strings.Repeat(strings.Repeat("d", n)+"/", k)
				for g := 0; g < 2; g++ {
					if !yield(wrapCase{ExeDir: strings.TrimSuffix(d, "/"), Target: "w", Gone: g == 1, Opts: []string{"-emacsarg", "x"}}) {
						return
					}
				}
			}
		}
	}, run)
	// combinations of options
	logs := [][]string{nil, {"-log", "-"}, {"-log", ""}, {"-log", "@my log"}, {"--log=@REL/rel.log"}, {"-log", "x", "-log", ""}}
	dis := [][]string{nil, {"-disable-link-set"}, {"-disable-link-set=false"}}
	ems := [][]string{nil, {"-emacsclient", "/opt/my emacs/bin/e'c"}, {"-emacsclient", "emacsclient"}}
	eas := [][]string{nil, {"-emacsarg", "a b"}, {"-emacsarg", "", "-emacsarg", "z"}, {"-emacsarg", ""}, {"-emacsarg", "1", "-emacsarg", "2", "-emacsarg", "1"}}
	scs := [][]string{nil, {"-scheme", "ftp"}, {"-scheme", "", "-scheme", "news:"}, {"-scheme", ""}, {"-scheme", "a", "-scheme", "b", "-scheme", "c", "-scheme", "d", "-scheme", "e"}, {"-scheme", "", "-scheme", "a", "-scheme", "", "-scheme", "b"}}
	fls := [][]string{nil, {"-org", "@a.org"}, {"-txt", "@a.org", "-org", "@b.txt"}, {"@a.org", "@b.txt"}, {"-org", "@s/l.org", "-txt", "@b.txt", "-org", "@a.org", "@b.txt", "@a.org"}, {"-txt", "@b.txt", "-txt", "@b.txt", "--", "@a.org"}}
	core.Explore(c, "options", "all combinations of 6 log, 3 linkSet, 3 editor, 5 argument, 6 scheme and 6 file choices; relative and symbolic link paths, wrapper file or stdout", func(yield func(wrapCase) bool) {
		n := 0
		for t := range core.Product(len(logs), len(dis), len(ems), len(eas), len(scs), len(fls)) {
			n++
			if !c.Thorough() && (t[0]+t[1]+t[2]+t[3]+t[4]+t[5])%3 != 0 && t[3]+t[4] > 0 {
				continue
			}
			x := wrapCase{ExeDir: "e", Files: []string{"a.org", "b.txt", "s/l.org"}, Target: []string{"w", "w w.sh", "-", "s/w"}[n%4], Rel: n%3 == 0, Link: n%5 == 0}
			for _, o := range [][]string{logs[t[0]], dis[t[1]], ems[t[2]], eas[t[3]], scs[t[4]], fls[t[5]]} {
				x.Opts = append(x.Opts, o...)
			}
			if !yield(x) {
				return
			}
		}
	}, run)
	// kinds of files and their names
	flagged := []string{"-org", "@a.org", "-org", "@b.notes", "-txt", "@c.org", "-txt", "@d.txt", "-org", "@ee", "-txt", "@-f.org", "-txt", "@l.org", "-org", "@a.ORG", "-txt", "@a=b.org"}
	positional := []string{"@a.org", "@g.txt", "@h.ORG", "@-f.org", "@l.org", "@m.txt"}
	nf := core.Pick(c, 2, 3)
	core.Explore(c, "kinds", fmt.Sprintf("every sequence of at most %d source options out of %d followed by at most 2 plain file arguments out of %d: the kind given by the option or by the suffix, all combinations", nf+1, len(flagged)/2, len(positional)), func(yield func(wrapCase) bool) {
		n := 0
		for f := range core.Words(len(flagged)/2, 0, nf+1) {
			for q := range core.Words(len(positional), 0, 2) {
				if len(f) > nf && len(q) > 0 {
					continue
				}
				n++
				x := wrapCase{ExeDir: "e", Files: []string{"a.org", "b.notes", "c.org", "d.txt", "l.org\x00d.txt", "m.txt\x00a.org", "ee", "-f.org", "a.ORG", "a=b.org", "g.txt", "h.ORG"}, Target: "w", Link: n%7 == 0}
				for _, i := range f {
					x.Opts = append(x.Opts, flagged[2*i], flagged[2*i+1])
				}
				for _, i := range q {
					x.Opts = append(x.Opts, positional[i])
				}
				if !yield(x) {
					return
				}
			}
		}
	}, run)
	c15scale(c, run)
	c.Sample(vals[len(vals)-12])
	// the wrapper really serves: replies through the wrapper equal direct ones
	core.Explore(c, "serve", "sessions through the wrapper compared with direct ones for 6 configurations", core.Slice([]int{0, 1, 2, 3, 4, 5}), func(w *core.Worker, k int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		p1, p2 := dir+"/it's a \"n$te\u00e9\n.org", dir+"/b.txt"
		drv.WriteFile(p1, "* H\nhttp://a.org/x\nftp://c.org/z [[news:x][d]]\n")
		drv.WriteFile(p2, "http://a.org/x\n")
		opts := [][]string{{"-org", p1}, {"-org", p1, "-txt", p2, "-disable-link-set"}, {"-scheme", "ftp", "-org", p1}, {"-scheme", "", "-scheme", "news", "-org", p1, p2},
			{"-log", dir + "/l o'g", "-emacsclient", filepath.Join(c.Bin, "fakeemacs"), "-emacsarg", "a\tb", "-org", p1}, {"-log=", "-txt", p1, p1}}[k]
		g, err := (drv.Run{Path: filepath.Join(c.Bin, "burl_backend"), Args: append([]string{"-wrapper", dir + "/w"}, opts...), Dir: dir}).Do()
		if err != nil || g.Code != 0 {
			return core.Out{Err: err, Viol: fmt.Sprint("generation failed: ", g), Key: "serve"}
		}
		var bodies [][]byte
		for _, m := range []string{"http://a.org/x", "ftp://c.org/z", "news:x"} {
			bodies = append(bodies, mentions(m, []string{m}, big))
		}
		bodies = append(bodies, drv.Req("h", "hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "1"}}}),
			drv.Req("l", "linkremark.linkSet", map[string]any{"prefix": []string{"http", "ftp", "news"}}), drv.Req("v", "burl.visit", map[string]any{"file": p1}))
		res := []string{}
		for i := 0; i < 2; i++ {
			r := drv.Run{Path: filepath.Join(c.Bin, "burl_backend"), Args: opts, Dir: dir}
			if i == 1 {
				r = drv.Run{Path: "/bin/sh", Args: []string{dir + "/w"}, Dir: "/"}
			}
			log := fmt.Sprintf("%s/fake%d.log", dir, i)
			r.Env = drv.FakeEnv(log, "o")
			s, bad, err := drv.Lockstep(r, bodies...)
			if err != nil || bad != "" {
				return core.Out{Err: err, Viol: bad, Key: "serve"}
			}
			t := ""
			for _, id := range []string{"http://a.org/x", "ftp://c.org/z", "news:x", "h", "l", "v"} {
				t += id + " " + drv.ReplyKey(s.Get(id)) + "\n"
			}
			runs, _ := drv.FakeRuns(log)
			res = append(res, t+fmt.Sprintf("%q", runs))
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(res[0])
		}
		if res[0] != res[1] {
			return core.Bad(fmt.Sprint("serve:", k), "replies through the wrapper differ:\n%s\ndirect\n%s", res[1], res[0])
		}
		return core.Out{}
	})
}
