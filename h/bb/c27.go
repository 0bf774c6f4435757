package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	bigmath "math/big"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"verif/core"
	"verif/drv"
)

// cliCase is a run of burl_client with a stand-in backend.
type cliCase struct {
	Back   []string // arguments of the backend
	Query  []string // arguments after --
	Usage  bool     // the command line is wrong: no request may be sent
	Reply  int      // index in cliReplies
	Bytes  int      // bytes of the reply stream that are written, negative: all
	Finish string   // wait: for the end of input, close: the same with closed output, exit: at once, kill: by a signal
	Status int
	Early  bool // ends without reading the request
	None   bool // the backend does not exist
}

// cliReplies are streams of the stand-in backend; a text is one frame, @ is the id.
var cliReplies = []struct {
	frames []string
	want   string // result, empty: error
}{
	{[]string{`{"id":@,"result":{"a":1,"b":["x",null,true,{"c":"d"}]},"error":null}`}, `{"a":1,"b":["x",null,true,{"c":"d"}]}`},
	{[]string{`{"id":@,"result":null,"error":"some failure"}`}, ""},
	{[]string{`{"id":@,"result":[],"error":null}`}, `[]`},
	{[]string{`{"id":@,"result":0,"error":null}`}, `0`},
	{[]string{`{"id":@,"result":false,"error":null}`}, `false`},
	{[]string{`{"id":@,"result":"","error":null}`}, `""`},
	{[]string{`{"id":@,"result":"<&> \u0416\u2028 \"q\"","error":null}`}, `"<&> \u0416\u2028 \"q\""`},
	{[]string{"{\"id\":@,\"result\":[1],\"error\":null}\n"}, `[1]`},
	{[]string{`{"id":7,"result":{"foreign":1},"error":null}`, `{"id":@,"result":{"own":2},"error":null}`}, `{"own":2}`},
	{[]string{`{"id":7,"result":null,"error":"foreign"}`, `{"id":@,"result":{"own":2},"error":null}`}, `{"own":2}`},
	{[]string{`{"id":@,"result":{"own":2},"error":null}`, `{"id":@,"result":{"again":3},"error":null}`}, `{"own":2}`},
	{[]string{`{"id":@,"result":"` + strings.Repeat("long ", 20000) + `","error":null}`}, `"` + strings.Repeat("long ", 20000) + `"`},
	{[]string{`{"id":@,"result":null,"error":""}`}, ""},
	{[]string{`{"id":@,"result":null,"error":{"code":1}}`}, ""},
	{[]string{`{"id":7,"result":[1],"error":null}`}, ""},
	{[]string{`{"id":@,"result":` + cliNumbers + `,"error":null}`}, cliNumbers},
	{[]string{`{"id":@,"result":9007199254740993,"error":null}`}, `9007199254740993`},
	{[]string{`{"id":@,"result":{"":{"\u0000":[[[]],{}]},"id":1,"result":null,"error":"x"},"error":null}`}, `{"":{"\u0000":[[[]],{}]},"id":1,"result":null,"error":"x"}`},
}

// values that are not exact as float64 among them
const cliNumbers = `[9007199254740993,-9007199254740993,9223372036854775807,-9223372036854775809,18446744073709551615,123456789012345678901234567890,0.1234567890123456789,1e22,1e23,1e400,1e-400,-0,1.0,1E+2,-1.5e-7,4503599627370497.5]`

// cliCanon is a canonical form of JSON with exact values of numbers.
func cliCanon(raw []byte) string {
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return "!" + string(raw)
	}
	if _, err := dec.Token(); err != io.EOF {
		return "!" + string(raw)
	}
	var walk func(v any) any
	walk = func(v any) any {
		switch v := v.(type) {
		case json.Number:
			if r, ok := new(bigmath.Rat).SetString(string(v)); ok {
				return map[string]string{"number": r.RatString()}
			}
		case []any:
			for i := range v {
				v[i] = walk(v[i])
			}
		case map[string]any:
			for k := range v {
				v[k] = walk(v[k])
			}
		}
		return v
	}
	js, _ := json.Marshal(walk(v))
	return string(js)
}

type cliPlan struct {
	Frames []string
	Bytes  int
	Finish string
	Status int
	Early  bool
	Log    string
}

type cliLog struct {
	Args  []string
	Input []byte
}

// cliBackend is the stand-in: it records its arguments and input.
func cliBackend(env string) {
	signal.Ignore(syscall.SIGPIPE)
	var p cliPlan
	if err := json.Unmarshal([]byte(env), &p); err != nil {
		os.Exit(99)
	}
	l := cliLog{Args: os.Args[1:]}
	save := func() {
		data, _ := json.Marshal(l)
		f, err := os.OpenFile(p.Log, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err == nil {
			_, err = f.Write(append(data, '\n'))
		}
		if err != nil {
			os.Exit(97)
		}
	}
	end := func() {
		switch p.Finish {
		case "kill":
			save()
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		case "close":
			os.Stdout.Close()
			fallthrough
		case "wait":
			rest, _ := io.ReadAll(os.Stdin)
			l.Input = append(l.Input, rest...)
		}
		save()
		os.Exit(p.Status)
	}
	if p.Early {
		end()
	}
	buf := make([]byte, 4096)
	for {
		if fr, _ := drv.SplitFrames(l.Input); len(fr) > 0 {
			break
		}
		n, err := os.Stdin.Read(buf)
		l.Input = append(l.Input, buf[:n]...)
		if err != nil {
			save()
			os.Exit(p.Status)
		}
	}
	fr, _ := drv.SplitFrames(l.Input)
	var rq struct {
		ID json.RawMessage `json:"id"`
	}
	json.Unmarshal(fr[0], &rq)
	var out []byte
	for _, f := range p.Frames {
		out = append(out, drv.Frame([]byte(strings.Replace(f, "@", string(rq.ID), 1)))...)
	}
	if p.Bytes >= 0 && p.Bytes < len(out) {
		out = out[:p.Bytes]
	}
	os.Stdout.Write(out)
	end()
}

// cliRequest is the request that the command line asks for.
func cliRequest(q []string) (method string, param any) {
	switch q[0] {
	case "mentions":
		return "linkremark.urlMentions", map[string]any{"variants": q[1:]}
	case "set":
		return "linkremark.linkSet", map[string]any{"prefix": q[1:]}
	case "capture":
		return "linkremark.capture", map[string]any{"format": "org-protocol", "data.url": q[1]}
	case "visit":
		m := map[string]any{"file": "", "lineNo": 0}
		for i := 1; i < len(q); i++ {
			name, val, ok := strings.Cut(strings.TrimLeft(q[i], "-"), "=")
			if !ok {
				i++
				val = q[i]
			}
			if name == "file" {
				m["file"] = val
			} else {
				var n int
				fmt.Sscan(val, &n)
				m["lineNo"] = n
			}
		}
		return "linkremark.visit", m
	case "hello":
		if len(q) == 2 {
			return "linkremark.hello", json.RawMessage(q[1])
		}
		return "linkremark.hello", nil
	}
	return "", nil
}

func (x *cliCase) expected() (result string, success bool) {
	if x.Usage || x.None || x.Early {
		return "", false
	}
	r := cliReplies[x.Reply]
	if r.want == "" {
		return "", false
	}
	if x.Bytes >= 0 {
		n := 0
		for _, f := range r.frames {
			n += 4 + len(f) // the id is one character long
			if strings.Contains(f, `"id":@`) {
				break
			}
		}
		if x.Bytes < n {
			return "", false
		}
	}
	return r.want, x.Finish != "kill" && x.Status == 0
}

func (x *cliCase) run(w *core.Worker, bin string) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	self, err := os.Executable()
	if err != nil {
		return core.Out{Err: err}
	}
	back := filepath.Join(dir, "back end")
	if !x.None {
		if err := os.Symlink(self, back); err != nil {
			return core.Out{Err: err}
		}
	}
	plan, _ := json.Marshal(cliPlan{cliReplies[x.Reply].frames, x.Bytes, x.Finish, x.Status, x.Early, dir + "/log"})
	args := append(append(append([]string{back}, x.Back...), "--"), x.Query...)
	d, err := drv.Run{Path: filepath.Join(bin, "burl_client"), Args: args, Dir: dir, Env: append(append([]string{}, drv.MinEnv...), "CLI_BACKEND="+string(plan))}.Do()
	if err != nil {
		return core.Out{Err: err}
	}
	key := fmt.Sprintf("client:%v:%s", x.Query, x.Finish)
	bad := func(format string, a ...any) core.Out {
		return core.Bad(key, "%+v (reply %s): %s: %s", *x, drv.Short(fmt.Sprint(cliReplies[x.Reply].frames), 300), fmt.Sprintf(format, a...), drv.Short(d.String(), 900))
	}
	if d.Crashed() {
		return bad("crash or hang")
	}
	want, success := x.expected()
	if (d.Code == 0) != success {
		return bad("exit status %d", d.Code)
	}
	if want == "" {
		if len(bytes.TrimSpace(d.Stdout)) != 0 {
			return bad("something is printed without a result")
		}
	} else if got := cliCanon(d.Stdout); got != cliCanon([]byte(want)) {
		return bad("printed %s instead of %s", drv.Short(got, 300), drv.Short(want, 300))
	}
	data, err := os.ReadFile(dir + "/log")
	if err != nil {
		if x.None || x.Usage || !success {
			return core.Out{} // it may have been not started or left alone
		}
		return bad("the backend was not run")
	}
	lines := bytes.Split(bytes.TrimRight(data, "\n"), []byte("\n"))
	if len(lines) != 1 {
		return bad("the backend was run %d times", len(lines))
	}
	var l cliLog
	if err := json.Unmarshal(lines[0], &l); err != nil {
		return core.Out{Err: err}
	}
	if fmt.Sprintf("%q", l.Args) != fmt.Sprintf("%q", append([]string{}, x.Back...)) {
		return bad("the backend got arguments %q instead of %q", l.Args, x.Back)
	}
	frames, rest := drv.SplitFrames(l.Input)
	if len(rest) != 0 {
		return bad("the backend received an incomplete frame %.300q", rest)
	}
	if x.Usage {
		if len(frames) != 0 {
			return bad("request %.300q is sent in spite of wrong usage", frames[0])
		}
		return core.Out{}
	}
	if x.Early && len(frames) == 0 {
		return core.Out{}
	}
	if len(frames) != 1 {
		return bad("the backend received %d requests", len(frames))
	}
	var m struct {
		Method string            `json:"method"`
		Params []json.RawMessage `json:"params"`
	}
	if err := json.Unmarshal(frames[0], &m); err != nil || len(m.Params) != 1 {
		return bad("request %.300q", frames[0])
	}
	method, param := cliRequest(x.Query)
	if m.Method != method {
		return bad("method %q instead of %q", m.Method, method)
	}
	switch p := param.(type) {
	case nil:
	case json.RawMessage:
		if cliCanon(m.Params[0]) != cliCanon(p) {
			return bad("parameter %.300q instead of %.300q", m.Params[0], p)
		}
	case map[string]any:
		var got map[string]any
		if err := json.Unmarshal(m.Params[0], &got); err != nil {
			return bad("parameter %.300q", m.Params[0])
		}
		for k, v := range p {
			var g any = got
			for _, n := range strings.Split(k, ".") {
				o, _ := g.(map[string]any)
				g = o[n]
			}
			gj, _ := json.Marshal(g)
			vj, _ := json.Marshal(v)
			if string(gj) != string(vj) {
				return bad("%s is %s instead of %s", k, gj, vj)
			}
		}
		if o := got["options"]; o != nil {
			return bad("unexpected options %v", o)
		}
	}
	return core.Out{}
}

func c27(c *core.Ctx) {
	c.Rule("burl_client is run with a stand-in backend that records its arguments and input, replies and ends as planned; the request, the printed result and the status are compared with what the command line and the plan ask for; non-trivial: distinct cases")
	c.Assume("a result is not null; backend arguments do not contain -- and the backend's name does not begin with a dash; arguments are valid UTF-8")
	run := func(w *core.Worker, x cliCase) core.Out {
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprintf("%+v", x))
		}
		return x.run(w, c.Bin)
	}
	words := []string{"x", "", "http://a.org/x?q=1&r=<2>#f", "two words", "-n", "--", "é\"'\\\n", "@"}
	backs := [][]string{nil, {"a"}, {"-org", "x y"}, {"", "-"}, {"--line", "3", "visit"}, {"é\n'\"\\$"}}
	var queries [][]string
	for _, s := range []string{"mentions", "set"} {
		for t := range core.Words(len(words), 0, core.Pick(c, 3, 4)) {
			q := []string{s}
			for _, i := range t {
				q = append(q, words[i])
			}
			queries = append(queries, q)
		}
	}
	for _, v := range words {
		queries = append(queries, []string{"capture", v})
		for _, n := range []string{"0", "1", "-1", "77", "2147483648"} {
			queries = append(queries, []string{"visit", "--file", v, "--line", n}, []string{"visit", "-line=" + n, "-file=" + v})
		}
		queries = append(queries, []string{"visit", "--file", v})
	}
	queries = append(queries, []string{"hello"})
	for _, j := range []string{`{}`, `{"version":"9","formats":[]}`, `[1,"a"]`, `"text"`, `true`, `{"a":{"b":[{"c":null}]},"<":"&"}`, ` 12 `, cliNumbers, `9007199254740993`, `{"version":18446744073709551617,"formats":[0.1234567890123456789]}`} {
		queries = append(queries, []string{"hello", j})
	}
	core.Explore(c, "requests", fmt.Sprintf("%d queries x %d lists of backend arguments", len(queries), len(backs)), func(yield func(cliCase) bool) {
		for i, q := range queries {
			for j, b := range backs {
				if len(q) > 3 && q[0] != "visit" && j != i%len(backs) && !c.Thorough() {
					continue
				}
				if !yield(cliCase{Back: b, Query: q, Bytes: -1, Finish: "wait"}) {
					return
				}
			}
		}
	}, run)
	counts := scaleN(core.Pick(c, 257, 4096))
	core.Explore(c, "many arguments", fmt.Sprintf("N backend arguments or N queried values, N of %v, different, equal, empty at every second or the last place; values of 2^k-1, 2^k and 2^k+1 bytes, k of 4..16", counts), func(yield func(cliCase) bool) {
		for _, n := range counts {
			for k := 0; k < 4; k++ {
				var l []string
				for i := 0; i < n; i++ {
					v := fmt.Sprintf("v%d", i)
					if k == 1 || k == 2 && i%2 > 0 || k == 3 && i == n-1 {
						v = []string{"", "same", "", ""}[k]
					}
					l = append(l, v)
				}
				for _, s := range []string{"set", "mentions"} {
					if !yield(cliCase{Back: l, Query: []string{s, "x"}, Bytes: -1, Finish: "wait"}) || !yield(cliCase{Query: append([]string{s}, l...), Bytes: -1, Finish: "wait"}) {
						return
					}
				}
			}
		}
		for k := 4; k <= 16; k++ {
			for d := -1; d <= 1; d++ {
				v := strings.Repeat("x", 1<<k+d)
				for _, q := range [][]string{{"set", v}, {"mentions", "a", v}, {"capture", v}, {"visit", "--file", v, "--line", "2"}, {"hello", `"` + v + `"`}} {
					if !yield(cliCase{Back: []string{v}, Query: q, Bytes: -1, Finish: "wait"}) {
						return
					}
				}
			}
		}
	}, run)
	wrong := [][]string{{}, {"mention", "x"}, {""}, {"urlMentions", "x"}, {"capture"}, {"capture", "a", "b"}, {"hello", "{"}, {"hello", ""}, {"hello", "{}", "{}"},
		{"visit", "--line", "x"}, {"visit", "--file"}, {"visit", "--unknown", "1"}, {"visit", "--file", "f", "g"}, {"visit", "--file", "f", "4"}, {"visit", "f"}, {"visit", "--file", "f", "--", "g"}, {"visit", "f", "--line", "2"}, {"hello", `{"a":}`}}
	core.Explore(c, "usage", fmt.Sprintf("%d wrong queries x %d lists of backend arguments x 2 ends; a missing backend", len(wrong), len(backs)), func(yield func(cliCase) bool) {
		for _, q := range wrong {
			for _, b := range backs {
				for _, f := range []string{"wait", "exit"} {
					if !yield(cliCase{Back: b, Query: q, Usage: true, Bytes: -1, Finish: f}) {
						return
					}
				}
			}
		}
		for _, q := range queries {
			if len(q) < 3 && !yield(cliCase{Query: q, None: true, Bytes: -1}) {
				return
			}
		}
	}, run)
	core.Explore(c, "outcomes", fmt.Sprintf("%d reply streams x ends of 4 kinds x statuses 0, 1, 3, 255, whole or broken off at every byte (every 4001st of the long one)", len(cliReplies)), func(yield func(cliCase) bool) {
		for r := range cliReplies {
			total := 0
			for _, f := range cliReplies[r].frames {
				total += 4 + len(f)
			}
			own := cliReplies[r].frames[len(cliReplies[r].frames)-1]
			answered := strings.Contains(own, `"id":@`)
			for n := -1; n <= total; n++ {
				if f := cliReplies[r].frames; n >= 0 && n < total && n >= total-len(own)+len(strings.TrimRight(f[len(f)-1], "\n")) {
					continue // whether a reply without blanks at its end is whole is not decided
				}
				if n > 100 && total > 1000 && n%4001 != 0 && n < total-2 {
					continue
				}
				for _, f := range []string{"close", "exit", "kill", "wait"} {
					if f == "wait" && (n >= 0 && n < total || !answered) {
						continue // a backend that neither answers nor ends
					}
					for _, s := range []int{0, 1, 3, 255} {
						if f == "kill" && s > 0 {
							continue
						}
						if n >= 0 && n < total && s > 0 && !c.Thorough() && f != "exit" {
							continue
						}
						if !yield(cliCase{Query: []string{"mentions", "u"}, Reply: r, Bytes: n, Finish: f, Status: s}) {
							return
						}
					}
				}
			}
		}
		for _, f := range []string{"close", "exit", "kill"} {
			for _, s := range []int{0, 1, 3} {
				if !yield(cliCase{Query: []string{"mentions", "u"}, Early: true, Bytes: -1, Finish: f, Status: s}) {
					return
				}
			}
		}
	}, run)
	core.Explore(c, "output", fmt.Sprintf("results of 1, 8 or 1000 links, of mentions or set, printed to a file, a full device, something that can not be written, files limited to 1 and 8 blocks (%d kinds)", len(outWays)), core.Product(3, 2, len(outWays)), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		text := ""
		for i := 0; i < []int{1, 8, 1000}[x[0]]; i++ {
			text += fmt.Sprintf("* h\n%s\nhttp://b.org/%d\n", []string{"[[http://a.org/x][" + strings.Repeat("d", 900) + "]]", "http://a.org/x"}[min(i/8, 1)], i)
		}
		drv.WriteFile(dir+"/a.org", text)
		if x[2] > 2 && x[0] == 0 || x[1] == 1 && x[2] > 2 && x[0] < 2 {
			return core.Out{} // not long enough
		}
		return outputCase(w, dir, x[2], fmt.Sprint(x[:2]), filepath.Join(c.Bin, "burl_client"), filepath.Join(c.Bin, "burl_backend"), "-log", "", "-org", dir+"/a.org", "--", []string{"mentions", "set"}[x[1]], []string{"http://a.org/x", "http"}[x[1]])
	})
	// The same through the real backend.
	reqs := [][2]string{
		{"mentions http://a.org/x", `linkremark.urlMentions {"variants":["http://a.org/x"]}`},
		{"mentions https://a.org/x/ http://a.org/y", `linkremark.urlMentions {"variants":["https://a.org/x/","http://a.org/y"]}`},
		{"mentions http://no.org/", `linkremark.urlMentions {"variants":["http://no.org/"]}`},
		{"mentions", `linkremark.urlMentions {"variants":[]}`},
		{"set http", `linkremark.linkSet {"prefix":["http"]}`},
		{"set https mid", `linkremark.linkSet {"prefix":["https","mid"]}`},
		{"set [", `linkremark.linkSet {"prefix":["["]}`},
		{"set", `linkremark.linkSet {"prefix":[]}`},
		{"capture org-protocol:/x", `linkremark.capture {"format":"org-protocol","version":"0.2","data":{"url":"org-protocol:/x"}}`},
		{"capture http://x", `linkremark.capture {"format":"org-protocol","version":"0.2","data":{"url":"http://x"}}`},
		{"visit --file %/a.org --line 4", `linkremark.visit {"file":"%/a.org","lineNo":4}`},
		{"visit --file %/b.org", `linkremark.visit {"file":"%/b.org","lineNo":0}`},
		{`hello {"version":"0.2","formats":[{"format":"org-protocol","version":"0.2"}]}`, `linkremark.hello {"version":"0.2","formats":[{"format":"org-protocol","version":"0.2"}]}`},
		{`hello {"formats":[]}`, `linkremark.hello {"formats":[]}`},
	}
	core.Explore(c, "backend", fmt.Sprintf("%d commands with the real backend compared with the same request sent directly, editor outcomes o, 1", len(reqs)), core.Product(len(reqs), 2), func(w *core.Worker, x []int) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		drv.WriteFile(dir+"/a.org", "* h http://a.org/x\n[[https://a.org/x][d <&>]] mid:q@w\n** i\n<http://a.org/y>\n")
		args := []string{"-log", "", "-emacsclient", filepath.Join(c.Bin, "fakeemacs"), "-org", dir + "/a.org"}
		m, p, _ := strings.Cut(strings.ReplaceAll(reqs[x[0]][1], "%", dir), " ")
		env := drv.FakeEnv(dir+"/log", []string{"o", "1"}[x[1]])
		ss, bad, err := drv.Burst(drv.Run{Path: filepath.Join(c.Bin, "burl_backend"), Args: args, Dir: dir, Env: env}, drv.Req("i", m, json.RawMessage(p)))
		if err != nil || bad != "" {
			return core.Out{Err: fmt.Errorf("%v %s", err, bad)}
		}
		rep := ss.Get("i")
		runs, _ := drv.FakeRuns(dir + "/log")
		drv.FakeReset(dir + "/log")
		cmd := append(append([]string{filepath.Join(c.Bin, "burl_backend")}, args...), "--")
		cmd = append(cmd, strings.Split(strings.ReplaceAll(reqs[x[0]][0], "%", dir), " ")...)
		d, err := drv.Run{Path: filepath.Join(c.Bin, "burl_client"), Args: cmd, Dir: dir, Env: env}.Do()
		if err != nil || rep == nil {
			return core.Out{Err: fmt.Errorf("%v %v", err, rep)}
		}
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint(x))
		}
		runs2, _ := drv.FakeRuns(dir + "/log")
		want := ""
		if rep.OK() {
			want = drv.ReplyKey(rep)
		}
		got := ""
		if len(bytes.TrimSpace(d.Stdout)) > 0 {
			got = drv.ReplyKey(&drv.Reply{Result: d.Stdout})
		}
		if d.Crashed() || (d.Code == 0) != rep.OK() || got != want || fmt.Sprintf("%q", runs) != fmt.Sprintf("%q", runs2) {
			return core.Bad("backend:"+reqs[x[0]][0], "%s: the reply sent directly is %s, editor runs %q; burl_client printed %s, editor runs %q: %s", reqs[x[0]][0], rep.Raw, runs, got, runs2, drv.Short(d.String(), 900))
		}
		return core.Out{}
	})
	c27slow(c)
	c.Sample(cliCase{Query: []string{"set", "http"}, Bytes: 20, Finish: "exit"})
}
