package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/drv"
)

// emReq is one request with the outcomes of the editor runs it causes.
type emReq struct {
	Method string
	Arg    map[string]any
	Plan   string
}

type emCase struct {
	User    []string // extra editor arguments
	Missing bool     // the editor command does not exist
	Names   []string `json:",omitempty"` // further configured files
	Raw     []string `json:",omitempty"` // names of configured files as given, relative ones too
	Reqs    []emReq
}

// c12accept is the reference decision: what has to be delivered, with +LINE.
func c12accept(r emReq, sources []string) (target string, line int, ok, preview bool) {
	if strings.HasSuffix(r.Method, "apture") {
		if r.Arg["format"] != "org-protocol" {
			return
		}
		if e, has := r.Arg["error"]; has && e != nil {
			preview = true
			return
		}
		data, _ := r.Arg["data"].(map[string]any)
		u, _ := data["url"].(string)
		if !strings.HasPrefix(u, "org-protocol:") {
			return
		}
		return u, 0, true, false
	}
	f, _ := r.Arg["file"].(string)
	for _, s := range sources {
		if f == s {
			switch n := r.Arg["lineNo"].(type) {
			case int:
				line = n
			case float64:
				line = int(n)
			}
			return f, line, true, false
		}
	}
	return
}

// unpassable tells that no program can get such an argument on Linux.
func unpassable(s string) bool { return len(s) >= 1<<17 || strings.Contains(s, "\x00") }

func count(list []string, s string) (n int) {
	for _, x := range list {
		if x == s {
			n++
		}
	}
	return
}

// subsequence tells whether user appears in argv in this order.
func subsequence(user, argv []string) bool {
	i := 0
	for _, a := range argv {
		if i < len(user) && user[i] == a {
			i++
		}
	}
	return i == len(user)
}

// probe recognises the question whether org-protocol is loaded.
func probe(argv []string, target string) bool {
	if count(argv, "--eval") == 0 {
		return false
	}
	for _, a := range argv {
		if a != target && strings.Contains(a, "org-protocol") {
			return true
		}
	}
	return false
}

// c12judge decides one request given the runs it caused.
func c12judge(x emCase, r emReq, sources []string, rep *drv.Reply, runs [][]string) string {
	target, line, ok, preview := c12accept(r, sources)
	if rep == nil {
		return "no single reply"
	}
	for _, argv := range runs {
		if !subsequence(x.User, argv) {
			return fmt.Sprintf("extra arguments %q are not passed: %q", x.User, argv)
		}
	}
	if !ok {
		if len(runs) != 0 {
			return fmt.Sprintf("editor was run for a request to refuse: %q", runs)
		}
		if preview {
			if !rep.OK() {
				return ""
			}
			var v struct {
				Preview bool
				Status  string
			}
			if json.Unmarshal(rep.Result, &v); v.Status == "success" {
				return "success is reported for a request with error mark"
			}
			return ""
		}
		if rep.OK() {
			return fmt.Sprintf("refused request got success %s", rep.Result)
		}
		return ""
	}
	plan := strings.Split(r.Plan, ",")
	delivered, failed := 0, false
	for i, argv := range runs {
		o := plan[len(plan)-1]
		if i < len(plan) {
			o = plan[i]
		}
		if o == "1" || o == "9" || o == "k" {
			failed = true
		}
		if o != "o" && strings.HasSuffix(r.Method, "apture") && probe(argv, target) {
			failed = true
		}
		n := count(argv, target)
		for _, u := range x.User {
			if u == target {
				n--
			}
		}
		if n == 0 {
			for _, a := range argv {
				if strings.Contains(a, target) && len(target) > len("org-protocol:") {
					return fmt.Sprintf("target is not passed verbatim as an argument: %q", argv)
				}
			}
			continue
		}
		if n > 1 {
			return fmt.Sprintf("target is passed %d times: %q", n, argv)
		}
		delivered++
		rest := append([]string{}, argv...)
		lines := []string{}
		for _, a := range rest {
			if strings.HasPrefix(a, "+") && count(x.User, a) == 0 {
				lines = append(lines, a)
			}
		}
		want := "[]"
		if line > 0 {
			want = fmt.Sprintf("[+%d]", line)
		}
		if fmt.Sprint(lines) != want {
			return fmt.Sprintf("line argument %v, expected %v: %q", lines, want, argv)
		}
	}
	if unpassable(target) {
		failed = true
		for _, argv := range runs {
			for _, a := range argv {
				if len(a) > len("org-protocol:") && strings.HasPrefix(target, a) && a != target {
					return fmt.Sprintf("a part of the target is passed: %.200q", argv)
				}
			}
		}
	}
	if delivered > 1 {
		return fmt.Sprintf("delivered %d times: %q", delivered, runs)
	}
	if x.Missing {
		failed = true
	}
	success := rep.OK()
	if success && !x.Missing && delivered != 1 {
		return fmt.Sprintf("success %s but delivered %d times, runs %q", rep.Result, delivered, runs)
	}
	if success && failed {
		return fmt.Sprintf("success is reported though an editor run failed, plan %s, runs %q", r.Plan, runs)
	}
	if !success && !failed {
		return fmt.Sprintf("error %v though every editor run succeeded", rep.Error)
	}
	if success && strings.HasSuffix(r.Method, "apture") {
		var v struct {
			Preview bool
			Status  string
		}
		if err := json.Unmarshal(rep.Result, &v); err != nil || v.Status != "success" || v.Preview {
			return fmt.Sprintf("result of successful capture %s", rep.Result)
		}
	}
	if success && strings.HasSuffix(r.Method, "isit") && string(rep.Result) != "true" {
		return fmt.Sprintf("result of successful visit %s", rep.Result)
	}
	return ""
}

func c12sources(dir string) []string {
	return []string{dir + "/a.org", dir + "/sub dir/b.txt", dir + "/-c.org"}
}

func c12setup(dir string) []string {
	src := c12sources(dir)
	mkdir(dir + "/sub dir")
	var args []string
	for i, s := range src {
		drv.WriteFile(s, "http://a.org/x\n")
		args = append(args, []string{"-org", "-txt", "-org"}[i], s)
	}
	drv.WriteFile(dir+"/other.org", "http://a.org/x\n")
	symlink(dir+"/a.org", dir+"/link.org")
	return args
}

func c12run(w *core.Worker, x emCase) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	args := c12setup(dir)
	src := c12sources(dir)
	for _, n := range x.Names {
		f := dir + "/" + n
		drv.WriteFile(f, "http://a.org/x\n")
		args = append(args, "-org", f)
		src = append(src, f)
	}
	if len(x.Raw) > 0 {
		mkdir(dir + "/d")
	}
	for i, n := range x.Raw {
		f := strings.ReplaceAll(n, "@", dir)
		p := f
		if !strings.HasPrefix(p, "/") {
			p = dir + "/" + p
		}
		drv.WriteFile(p, "http://a.org/x\n")
		args = append(args, []string{"-org", "-txt", "-org"}[i%3], f)
		src = append(src, f)
	}
	log := dir + "/fake.log"
	cmd := filepath.Join(w.C.Bin, "fakeemacs")
	if x.Missing {
		cmd = dir + "/missing-emacsclient"
	}
	args = append(args, "-emacsclient", cmd)
	for _, u := range x.User {
		args = append(args, "-emacsarg", u)
	}
	subst := func(r emReq) emReq {
		a := map[string]any{}
		for k, v := range r.Arg {
			if s, ok := v.(string); ok {
				v = strings.ReplaceAll(s, "@", dir)
			}
			a[k] = v
		}
		r.Arg = a
		return r
	}
	var problem string
	var herr error
	r := backend(w, dir, args...)
	// one plan per process: requests in one session share it sequentially
	var plans []string
	for _, q := range x.Reqs {
		plans = append(plans, q.Plan)
	}
	r.Env = drv.FakeEnv(log, plans[0])
	if len(x.Reqs) > 1 {
		r.Env = drv.FakeEnv(log, "o")
	}
	var perReq [][][]string
	r.Feed = func(in wc, out *drv.Stream) {
		for i, q := range x.Reqs {
			drv.FakeReset(log)
			in.Write(drv.Frame(drv.Req(i, q.Method, subst(q).Arg)))
			if _, ok := out.WaitFrames(i + 1); !ok {
				return
			}
			runs, err := drv.FakeRuns(log)
			if err != nil {
				herr = err
			}
			perReq = append(perReq, runs)
		}
	}
	d, err := r.Do()
	if err == nil {
		err = herr
	}
	if err != nil {
		return core.Out{Err: err}
	}
	s, bad := drv.Parse(d)
	if bad != "" {
		return core.Bad("emacs:"+core.ShortHash(bad), "%s", bad)
	}
	for i, q := range x.Reqs {
		if i >= len(perReq) {
			problem = fmt.Sprintf("request %d is not answered: %s", i, d)
			break
		}
		if len(x.Reqs) > 1 {
			q.Plan = "o"
		}
		if p := c12judge(x, subst(q), src, s.Get(i), perReq[i]); p != "" {
			problem = fmt.Sprintf("request %d %s %v, extra args %q, plan %q: %s", i, q.Method, q.Arg, x.User, q.Plan, p)
			break
		}
		w.C.Distinct(fmt.Sprint(x.User, x.Missing, q, len(perReq[i])))
	}
	if problem != "" {
		return core.Bad("emacs:"+core.ShortHash(fmt.Sprint(x)), "%s", problem)
	}
	return core.Out{}
}

func capture(format, url string, errv any) map[string]any {
	m := map[string]any{"format": format, "version": "0.2", "data": map[string]any{"url": url, "title": "t", "body": "b"}}
	if errv != "absent" {
		m["error"] = errv
	}
	return m
}

func c12urls() []string {
	return []string{"org-protocol://capture?template=l&url=http%3A%2F%2Fa.org", "org-protocol:", "org-protocol:/x y'\"$(touch x)`id`\\;&|<>*?[]{}~!#%\n\té\U0001F600",
		"org-protocol:--eval", "org-protocol://" + strings.Repeat("long", 5000),
		"", "http://a.org/", "ORG-PROTOCOL:x", " org-protocol:x", "--eval", "-e", "(kill-emacs)", "org-protocol", "xorg-protocol:", "@/a.org", "@/other.org", "org-protocol\n:", "file:org-protocol:x"}
}

func c12(c *core.Ctx) {
	c.Rule("requests (format x error mark x URI; file x line) combined with every sequence of outcomes of the editor runs and lists of extra arguments; a stand-in editor records its argv; non-trivial: distinct (request, plan, number of runs)")
	c.Assume("the editor command is a stand-in that only records its arguments; the org-protocol probe is an --eval run that mentions org-protocol")
	ex := func(space, bounds string, cases func(func(emCase) bool)) {
		core.Explore(c, space, bounds, cases, func(w *core.Worker, x emCase) core.Out {
			if c.ReplayCase == nil {
				c.Count("evaluations", len(x.Reqs))
			}
			return c12run(w, x)
		})
	}
	var reqs []emReq
	urls := c12urls()
	for _, f := range []string{"org-protocol", "org", "", "Org-Protocol", "org-protocol ", "object"} {
		for _, e := range []any{"absent", nil, "message", map[string]any{}, false, 0, ""} {
			for _, u := range urls {
				reqs = append(reqs, emReq{"linkremark.capture", capture(f, u, e), "o"})
			}
		}
	}
	for _, m := range []string{"capture", "burl.capture"} {
		for _, u := range urls {
			reqs = append(reqs, emReq{m, capture("org-protocol", u, "absent"), "o"})
		}
	}
	for _, f := range []string{"@/a.org", "@/sub dir/b.txt", "@/-c.org", "@/other.org", "@/./a.org", "@//a.org", "@/sub dir/../a.org", "@/link.org", "a.org", "./a.org", "@/a.or", "@/a.orgx", "@/a.org ", "@/A.org", "@/", "@", "", "/etc/passwd", "--eval", "(kill-emacs)", "org-protocol:x", "@/a.org\n", "@/a.org\u0000"} {
		for _, l := range []any{nil, 0, 1, -1, 12345, 1 << 40, -(1 << 40)} {
			a := map[string]any{"file": f}
			if l != nil {
				a["lineNo"] = l
			}
			reqs = append(reqs, emReq{"linkremark.visit", a, "o"}, emReq{"burl.visit", a, "o"})
		}
	}
	users := [][]string{nil, {"-s", "sock x"}, {"a'b\"$x", "*?[", "\t\n"}, {"1", "2", "3", "4", "5"}, {"+7"}, {"--eval", "(x)"}}
	ex("requests", fmt.Sprintf("%d requests x %d lists of extra arguments, sessions of 20 requests", len(reqs), len(users)), func(yield func(emCase) bool) {
		for _, u := range users {
			for b := range core.Batch(core.Slice(reqs), 20) {
				if !yield(emCase{User: u, Reqs: b}) {
					return
				}
			}
		}
	})
	c.Sample(reqs[3])
	var chars []string
	for b := rune(1); b <= 0x100; b++ {
		chars = append(chars, string(b))
	}
	chars = append(chars, "\u0416", "\u2028", "\u20ac", "\ufffd", "\ufeff", "\U0001f600", "%00", "\\n", "\r\n", "\x00")
	ex("characters", fmt.Sprintf("each of %d characters inside and at the end of a URI and in the name of a configured file", len(chars)), func(yield func(emCase) bool) {
		for b := range core.Batch(core.Slice(chars), 10) {
			var x emCase
			for _, ch := range b {
				if !strings.Contains("\x00", ch) && ch != "/" {
					x.Names = append(x.Names, "n"+ch+"m.org", "e"+ch)
				}
			}
			for i, ch := range b {
				x.Reqs = append(x.Reqs, emReq{"capture", capture("org-protocol", "org-protocol:/a"+ch+"b", "absent"), "o"},
					emReq{"linkremark.capture", capture("org-protocol", "org-protocol:"+ch, nil), "o"},
					emReq{"burl.visit", map[string]any{"file": "@/n" + ch + "m.org"}, "o"},
					emReq{"linkremark.visit", map[string]any{"file": "@/e" + ch, "lineNo": i}, "o"},
					emReq{"linkremark.visit", map[string]any{"file": "@/e" + ch + "m.org"}, "o"})
			}
			if !yield(x) {
				return
			}
		}
	})
	ex("lengths", "URIs of 2^k-1, 2^k, 2^k+1 characters, k of 5..20 (also beyond the limit of the operating system), files with long names", func(yield func(emCase) bool) {
		for k := 5; k <= 20; k++ {
			var x emCase
			for d := -1; d <= 1; d++ {
				u := "org-protocol:/"
				x.Reqs = append(x.Reqs, emReq{"capture", capture("org-protocol", u+strings.Repeat("u", 1<<k+d-len(u)), nil), "o"})
			}
			n := strings.Repeat("f", k*10)
			x.Names = []string{n, n + "x"}
			x.Reqs = append(x.Reqs, emReq{"burl.visit", map[string]any{"file": "@/" + n, "lineNo": k}, "o"}, emReq{"burl.visit", map[string]any{"file": "@/" + n + "x"}, "o"},
				emReq{"burl.visit", map[string]any{"file": "@/" + n[1:]}, "o"})
			if !yield(x) {
				return
			}
		}
	})
	c12scale(c, ex)
	ways := []string{"r.org", "./r.org", "d/../r.org", "d//r.org", "d/r.org", "./d/r.org", "@/r.org", "@//r.org", "@/d/../r.org", "@/d/r.org"}
	ex("spellings", fmt.Sprintf("every set of 1..2 (thorough: 3) of %d spellings of names of files, all spellings requested, also with a slash, a dot or a directory added", len(ways)), func(yield func(emCase) bool) {
		var reqs []emReq
		for _, v := range ways {
			for _, t := range []string{v, "./" + v, v + "/", v + "/.", "d/../" + v, "d/./" + v, v + "/../r.org", strings.TrimPrefix(v, "./"), filepath.Base(v), "file:" + v, "file://" + v, "~/" + v, strings.ToUpper(v), "../" + v} {
				reqs = append(reqs, emReq{"burl.visit", map[string]any{"file": t}, "o"})
			}
		}
		for wd := range core.Words(len(ways), 1, core.Pick(c, 2, 3)) {
			x := emCase{Reqs: reqs}
			for i, k := range wd {
				if i > 0 && k <= wd[i-1] {
					x.Raw = nil
					break
				}
				x.Raw = append(x.Raw, ways[k])
			}
			if x.Raw != nil && !yield(x) {
				return
			}
		}
	})
	good := []emReq{
		{"capture", capture("org-protocol", urls[0], nil), ""},
		{"linkremark.capture", capture("org-protocol", urls[2], "absent"), ""},
		{"burl.visit", map[string]any{"file": "@/a.org"}, ""},
		{"linkremark.visit", map[string]any{"file": "@/sub dir/b.txt", "lineNo": 3}, ""},
	}
	outs := []string{"o", "n", "e", "x", "1", "9", "k"}
	ex("outcomes", "accepted requests x all sequences of 3 outcomes of editor runs out of 7 x extra arguments", func(yield func(emCase) bool) {
		for _, q := range good {
			for wd := range core.Words(len(outs), 3, 3) {
				q.Plan = outs[wd[0]] + "," + outs[wd[1]] + "," + outs[wd[2]]
				for _, u := range users[:2] {
					if !yield(emCase{User: u, Reqs: []emReq{q}}) {
						return
					}
				}
			}
		}
	})
	ex("missing", "accepted and refused requests, the editor command is missing", func(yield func(emCase) bool) {
		for _, q := range good {
			q.Plan = "o"
			if !yield(emCase{Missing: true, Reqs: []emReq{q, q}}) {
				return
			}
		}
	})
	c12place(c)
	c12slow(c)
}

// c12place: where and with what environment the editor runs.
func c12place(c *core.Ctx) {
	envs := [][]string{nil, {"EMACS_SOCKET_NAME=/run/s", "XDG_RUNTIME_DIR=/run/u", "DISPLAY=:7"}, {"EMACS_SERVER_FILE=é \n", "EMPTY=", "PATH=/bin", "LC_ALL=C", "TMPDIR=x y", "ALTERNATE_EDITOR=vi"}}
	names := []string{"r.org", "./r.org", "d/r.org", "d/../r.org", "@/r.org", "@/d/r.org"}
	core.Explore(c, "place", fmt.Sprintf("working directory and environment of the editor: %d sets of variables x %d names of a source x visit or capture once or twice x two working directories", len(envs), len(names)), core.Product(len(envs), len(names), 2, 2, 2), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		cwd := dir
		if x[4] == 1 {
			cwd = dir + "/other é"
		}
		mkdir(dir + "/d")
		mkdir(cwd)
		mkdir(cwd + "/d")
		f := strings.ReplaceAll(names[x[1]], "@", dir)
		p := f
		if p[0] != '/' {
			p = cwd + "/" + p
		}
		drv.WriteFile(p, "http://a.org/x\n")
		r := backend(w, cwd, "-log", "", "-org", f, "-emacsclient", filepath.Join(c.Bin, "fakeemacs"))
		r.Env = append(append(drv.FakeEnv(dir+"/fake.log", "o"), envs[x[0]]...), "FAKE_PLACE="+dir+"/place")
		var bodies [][]byte
		for i := 0; i <= x[3]; i++ {
			if x[2] == 0 {
				bodies = append(bodies, drv.Req(i, "burl.visit", map[string]any{"file": f, "lineNo": 1}))
			} else {
				bodies = append(bodies, drv.Req(i, "burl.capture", capture("org-protocol", "org-protocol:/x", nil)))
			}
		}
		c.Count("evaluations", len(bodies))
		c.Distinct("place" + fmt.Sprint(x))
		key := "place:" + fmt.Sprint(x)
		s, bad, err := drv.Lockstep(r, bodies...)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		for i := range bodies {
			if rep := s.Get(i); rep == nil || !rep.OK() {
				return core.Bad(key, "source %q, request %s is not successful: %s", f, bodies[i], drv.Short(s.Done.String(), 600))
			}
		}
		data, err := os.ReadFile(dir + "/place")
		if err != nil {
			return core.Bad(key, "the editor has not been run")
		}
		want := map[string]string{}
		for _, e := range r.Env {
			n, _, _ := strings.Cut(e, "=")
			want[n] = e
		}
		for _, rec := range strings.Split(strings.TrimSuffix(string(data), "\x00\x00"), "\x00\x00") {
			l := strings.Split(rec, "\x00")
			if l[0] != cwd {
				return core.Bad(key, "the editor is run in %q, the backend in %q", l[0], cwd)
			}
			for _, e := range want {
				if count(l[1:], e) != 1 {
					return core.Bad(key, "the editor has not got the variable %q but %q", e, l[1:])
				}
			}
		}
		return core.Out{}
	})
}
