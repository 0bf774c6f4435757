package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/drv"
)

// rq is a raw request with the expectation of the reference.
type rq struct {
	Name   string // method as JSON, "" if absent
	Params string // JSON, "" if absent
	ID     string // JSON, "" if absent
	OK     bool   // success expected
	Expect string // canonical result of a valid request, "" if not compared
}

func (r rq) body() []byte {
	var f []string
	if r.ID != "" {
		f = append(f, `"id":`+r.ID)
	}
	if r.Name != "" {
		f = append(f, `"method":`+r.Name)
	}
	if r.Params != "" {
		f = append(f, `"params":`+r.Params)
	}
	return []byte("{" + strings.Join(f, ",") + "}")
}

type rqCase struct{ Reqs []rq }

const helloArg = `{"formats":[{"format":"org","version":"0.1"},{"format":"org-protocol","version":"0.2"}],"version":"0.2"}`

var published = map[string]string{
	"hello": "hello", "burl.hello": "hello", "linkremark.hello": "hello",
	"capture": "capture", "burl.capture": "capture", "linkremark.capture": "capture",
	"burl.visit": "visit", "linkremark.visit": "visit",
	"burl.urlMentions": "urlMentions", "linkremark.urlMentions": "urlMentions",
	"burl.linkSet": "linkSet", "linkremark.linkSet": "linkSet",
}

func c05valid(dir string) map[string][2]string {
	return map[string][2]string{
		"hello":       {helloArg, `{"capabilities":["visit","urlMentions","linkSet"],"format":"org-protocol","options":{"clipboardForBody":false},"version":"0.2"}`},
		"capture":     {`{"format":"org-protocol","version":"0.2","data":{"url":"org-protocol:/x"},"error":null}`, `{"preview":false,"status":"success"}`},
		"visit":       {`{"file":"` + dir + `/a.org","lineNo":2}`, `true`},
		"urlMentions": {`{"variants":["http://a.org/x"]}`, `{"_type":"File","children":[{"_type":"Body","filtered":1,"links":[{"_type":"Link","lineNo":1,"url":"http://a.org/x"}],"total":1}],"filtered":1,"path":"` + dir + `/a.org","total":1}`},
		"linkSet":     {`{"prefix":["http"]}`, `{"urls":["http://a.org/x"]}`},
	}
}

const c05dirMark = "/@DIR@"

func c05run(w *core.Worker, x rqCase, lockstep bool) core.Out {
	dir := w.Fresh()
	defer rm(dir)
	drv.WriteFile(dir+"/a.org", "[[http://a.org/x]]\n")
	log := dir + "/fake.log"
	r := backend(w, dir, "-org", dir+"/a.org", "-emacsclient", filepath.Join(w.C.Bin, "fakeemacs"))
	r.Env = drv.FakeEnv(log, "o")
	var bodies [][]byte
	allBad := true
	for _, q := range x.Reqs {
		bodies = append(bodies, []byte(strings.ReplaceAll(string(q.body()), c05dirMark, dir)))
		if q.OK {
			allBad = false
		}
	}
	run := drv.Burst
	if lockstep {
		run = drv.Lockstep
	}
	s, bad, err := run(r, bodies...)
	if err != nil {
		return core.Out{Err: err}
	}
	fail := func(i int, format string, a ...any) core.Out {
		o := core.Bad("call:"+string(x.Reqs[i].body()), "request %s: %s", x.Reqs[i].body(), fmt.Sprintf(format, a...))
		if len(x.Reqs) > 2 {
			o.Min = rqCase{[]rq{x.Reqs[i], x.Reqs[len(x.Reqs)-1]}}
		}
		return o
	}
	if bad != "" {
		return core.Bad("call:"+core.ShortHash(bad), "requests %s: %s", drv.Short(string(mustJSON(x)), 600), bad)
	}
	// replies grouped by id
	want := map[string]int{}
	for _, q := range x.Reqs {
		want[idOf(q)]++
	}
	n := 0
	for id, l := range s.Replies {
		n += len(l)
		if want[id] != len(l) {
			return core.Bad("call-ids", "%d replies with id %s, %d requests; all ids %v: %s", len(l), id, want[id], s.Order, drv.Short(string(mustJSON(x)), 600))
		}
	}
	if n != len(x.Reqs) {
		return core.Bad("call-ids", "%d replies to %d requests: %s; %s", n, len(x.Reqs), drv.Short(string(mustJSON(x)), 900), drv.Short(s.Done.String(), 900))
	}
	for i, q := range x.Reqs {
		id := idOf(q)
		if want[id] != 1 {
			continue
		}
		rep := s.Replies[id][0]
		w.C.Count("replies_checked", 1)
		if q.OK != rep.OK() {
			return fail(i, "expected success %v, got %s", q.OK, drv.Short(string(rep.Raw), 300))
		}
		if q.OK && q.Expect != "" {
			exp := drv.Canon([]byte(strings.ReplaceAll(q.Expect, c05dirMark, dir)))
			if got := drv.Canon(rep.Result); got != exp {
				return fail(i, "result %s, expected %s", got, exp)
			}
		}
	}
	if allBad {
		runs, err := drv.FakeRuns(log)
		if err != nil {
			return core.Out{Err: err}
		}
		if len(runs) != 0 {
			return core.Bad("call-effect", "editor was run by refused requests: %q: %s", runs, drv.Short(string(mustJSON(x)), 900))
		}
	}
	return core.Out{}
}

func idOf(q rq) string {
	if q.ID == "" {
		return "null"
	}
	return q.ID
}

func mustJSON(v any) []byte {
	js, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return js
}

func c05(c *core.Ctx) {
	c.Rule("sequences of requests over all method names (published, internal, misspelt), wrong shapes of arguments and forms of id; every request must get exactly one reply with its id, of the expected kind; non-trivial: distinct requests and pairs")
	valid := c05valid(c05dirMark)
	js := func(s string) string { return string(mustJSON(s)) }
	var good, wrong []rq
	for _, name := range []string{"hello", "burl.hello", "linkremark.hello", "capture", "burl.capture", "linkremark.capture", "burl.visit", "linkremark.visit", "burl.urlMentions", "linkremark.urlMentions", "burl.linkSet", "linkremark.linkSet"} {
		v := valid[published[name]]
		good = append(good, rq{Name: js(name), Params: "[" + v[0] + "]", OK: true, Expect: v[1]})
	}
	names := []string{"visit", "urlMentions", "linkSet", "search", "burl.search", "linkremark.search", "Burl.Search", "Burl.Hello", "Burl.Capture", "Burl.Visit", "Burl.UrlMentions", "Burl.LinkSet",
		"", ".", "..", "hello ", " hello", "Hello", "HELLO", "burl.Hello", "burl.hello.", ".hello", "burl..hello", "burl", "linkremark", "linkremark.", "linkremark.Capture", "LinkRemark.capture", "unknown", "unknown.hello", "unknown.Burl.Hello", "x.y.z", "rpc.Hello", "burl/hello", "burl.helloworld", "burl.hell", "hello\u0000", "héllo", strings.Repeat("m", 3000), "Burl.NewBurlBackendPtr", "Burl.linkSetImpl", "BurlBackend.Hello", "burl.linkset", "burl.urlmentions", "burl.Visit", "main.main"}
	for _, n := range names {
		for _, p := range []string{"[" + helloArg + "]", "[" + valid["capture"][0] + "]", "[" + valid["visit"][0] + "]", "[]", ""} {
			wrong = append(wrong, rq{Name: js(n), Params: p})
		}
	}
	wrong = append(wrong, rq{Params: "[" + helloArg + "]"}, rq{Name: "null", Params: "[" + helloArg + "]"}, rq{})
	shapes := []string{"", "null", "[]", "[null]", "[1]", "[\"x\"]", "[[]]", "[{}]", "{}", "\"str\"", "1", "true", "[true]", "[[{}]]"}
	bad := map[string][]string{
		"hello":       {`{"formats":{}}`, `{"formats":"org-protocol"}`, `{"formats":[1]}`, `{"formats":["org-protocol"]}`, `{"formats":[]}`, `{"formats":[{"format":"org","version":"1"}]}`, `{"formats":[{"format":1,"version":"1"}]}`, `{"formats":[{"format":"org-protocol","version":2}]}`, `{"formats":null}`},
		"capture":     {`{"format":1}`, `{"format":"org-protocol","data":"org-protocol:/x"}`, `{"format":"org-protocol","data":{"url":["org-protocol:/x"]}}`, `{"format":"org-protocol","data":{"url":5}}`, `{"format":"org-protocol","data":null}`, `{"format":"org-protocol","url":"org-protocol:/x"}`, `{"format":["org-protocol"],"data":{"url":"org-protocol:/x"}}`, `{"data":{"url":"org-protocol:/x"}}`, `{"format":"org-protocol","version":1,"data":{"url":"org-protocol:/x"}}`},
		"visit":       {`{"file":1}`, `{"file":["` + c05dirMark + `/a.org"]}`, `{"file":"` + c05dirMark + `/a.org","lineNo":"2"}`, `{"file":"` + c05dirMark + `/a.org","lineNo":2.5}`, `{"path":"` + c05dirMark + `/a.org"}`, `{"file":null}`, `{"file":{}}`, `{"file":"` + c05dirMark + `/a.org","lineNo":[1]}`, `{"lineNo":1}`},
		"urlMentions": {`{"variants":"http://a.org/x"}`, `{"variants":[1]}`, `{"variants":{}}`, `{"variants":[]}`, `{"variants":[""]}`, `{"variants":["http://a.org/x"],"options":8}`, `{"variants":["http://a.org/x"],"options":{"countLimit":"8"}}`, `{"variants":[["http://a.org/x"]]}`, `{"url":"http://a.org/x"}`, `{"variants":["http://a.org/x"],"options":[]}`},
		"linkSet":     {`{"prefix":"http"}`, `{"prefix":[1]}`, `{"prefix":{}}`, `{"prefix":[]}`, `{"prefix":null}`, `{"prefix":[""]}`, `{"prefix":["http",2]}`, `{"prefixes":["http"]}`},
	}
	for name, m := range published {
		for _, p := range shapes {
			wrong = append(wrong, rq{Name: js(name), Params: p})
		}
		for _, p := range bad[m] {
			wrong = append(wrong, rq{Name: js(name), Params: "[" + p + "]"})
		}
	}
	// names of up to three parts and names which differ from a right one by one character
	parts := []string{"hello", "burl", "linkremark", "visit", "capture", "urlMentions", "linkSet", "search", "Burl", "Hello", "Visit", "unknown", "rpc", ""}
	strange := map[string]int{}
	for wd := range core.Words(len(parts), 1, 3) {
		var l []string
		for _, k := range wd {
			l = append(l, parts[k])
		}
		strange[strings.Join(l, ".")] = 1
		strange[strings.Join(l, "/")] = 1
		strange[strings.Join(l, "")] = 1
	}
	for name := range published {
		for i := 0; i <= len(name); i++ {
			for _, ch := range []string{".", " ", "x", "/", ":", "_", "\u0000", "\n"} {
				strange[name[:i]+ch+name[i:]] = 1
				if i < len(name) {
					strange[name[:i]+ch+name[i+1:]] = 1
				}
			}
			if i < len(name) {
				strange[name[:i]+name[i+1:]] = 1
				strange[name[:i]+strings.ToUpper(name[i:i+1])+name[i+1:]] = 1
				strange[name[:i]+name[i:i+1]+name[i:]] = 1
			}
			strange[name[i:]] = 1
			strange[name[:i]] = 1
		}
		strange[name+"."+name], strange[strings.ToUpper(name)], strange["*"+name], strange[strings.Repeat(name+".", 20)+name] = 1, 1, 1, 1
	}
	var alien []rq
	for _, n := range keys(strange) {
		if published[n] != "" {
			continue
		}
		for _, m := range []string{"hello", "capture", "visit", "urlMentions", "linkSet"} {
			alien = append(alien, rq{Name: js(n), Params: "[" + valid[m][0] + "]"})
		}
	}
	sortRq(wrong)
	tail := func(k int) rq {
		g := good[k%len(good)]
		g.ID = fmt.Sprint(1000 + k)
		return g
	}
	ex := func(space, bounds string, lock bool, cases func(func(rqCase) bool)) {
		core.Explore(c, space, bounds, cases, func(w *core.Worker, x rqCase) core.Out {
			if c.ReplayCase == nil {
				c.Count("evaluations", len(x.Reqs))
				for _, q := range x.Reqs {
					q.ID = ""
					c.Distinct(string(q.body()))
				}
			}
			return c05run(w, x, lock)
		})
	}
	c.Sample(string(wrong[3].body()))
	numbered := func(l ...rq) rqCase {
		o := append([]rq{}, l...)
		for i := range o {
			if o[i].ID == "" {
				o[i].ID = fmt.Sprint(i)
			}
		}
		return rqCase{o}
	}
	for _, lock := range []bool{false, true} {
		mode := map[bool]string{false: "burst", true: "lockstep"}[lock]
		ex("wrong-"+mode, fmt.Sprintf("%d wrong requests, each followed by a right one, %s", len(wrong), mode), lock, func(yield func(rqCase) bool) {
			for i, q := range wrong {
				if !yield(numbered(q, tail(i))) {
					return
				}
			}
		})
	}
	ex("names", fmt.Sprintf("%d requests with names of up to 3 known parts or different from a right one by one character, each with right arguments of every method, sessions of 40", len(alien)), false, func(yield func(rqCase) bool) {
		for b := range core.Batch(core.Slice(alien), 40) {
			if !yield(numbered(b...)) {
				return
			}
		}
	})
	ex("wrong-only", "sessions of 25 wrong requests", true, func(yield func(rqCase) bool) {
		for b := range core.Batch(core.Slice(wrong), 25) {
			if !yield(numbered(b...)) {
				return
			}
		}
	})
	kinds := append([]rq{}, good...)
	for i, q := range wrong {
		if i%core.Pick(c, 41, 13) == 0 {
			kinds = append(kinds, q)
		}
	}
	ex("pairs", fmt.Sprintf("all ordered pairs out of %d requests", len(kinds)), true, func(yield func(rqCase) bool) {
		for p := range core.Product(len(kinds), len(kinds)) {
			if !yield(numbered(kinds[p[0]], kinds[p[1]], tail(p[0]+p[1]))) {
				return
			}
		}
	})
	small := append(append([]rq{}, good[0], good[3], good[6], good[8], good[10]), wrong[5], wrong[len(wrong)/2], wrong[len(wrong)-3])
	ex("triples", "all sequences of length 4 out of 8 requests sent at once", false, func(yield func(rqCase) bool) {
		for p := range core.Product(8, 8, 8, 8) {
			if !yield(numbered(small[p[0]], small[p[1]], small[p[2]], small[p[3]])) {
				return
			}
		}
	})
	manyRequests(c)
	// forms of id
	ids := []string{"0", "1", "-1", "1.5", "12345678901234567890", "1e3", `""`, `"a"`, `"1"`, "null", "true", "false", "[]", "[1,2]", "{}", `{"a":1}`, `"\u00e9\n"`, ""}
	ex("ids", "all pairs of forms of id x right and wrong requests", false, func(yield func(rqCase) bool) {
		for p := range core.Product(len(ids), len(ids), 4) {
			a, b := good[p[2]%2*8], good[8]
			if p[2]&2 != 0 {
				b = wrong[7]
			}
			a.ID, b.ID = ids[p[0]], ids[p[1]]
			if !yield(rqCase{[]rq{a, b}}) {
				return
			}
		}
	})
}

type manyCase struct {
	Word []int // repeated pattern of kinds
	N    int
	Lock bool
}

// manyRequests checks sessions with many requests.
func manyRequests(c *core.Ctx) {
	valid := c05valid(c05dirMark)
	q := func(name, arg string, ok bool, expect string) rq {
		return rq{Name: `"` + name + `"`, Params: "[" + arg + "]", OK: ok, Expect: expect}
	}
	var kinds []rq
	for _, m := range []string{"hello", "linkSet", "urlMentions"} {
		kinds = append(kinds, q("burl."+m, valid[m][0], true, valid[m][1]))
	}
	kinds = append(kinds, q("hello", valid["hello"][0], true, valid["hello"][1]), q("nothing", helloArg, false, ""), q("hello", `"x"`, false, ""), q("burl.linkSet", `{"prefix":[]}`, false, ""),
		q("burl.visit", `{"file":"/missing"}`, false, ""), q("capture", `{"format":"other"}`, false, ""), q("burl.urlMentions", `{"variants":["http://b.org/"]}`, true, ""),
		q("hello", `{"formats":[]}`, false, ""))
	edit := len(kinds)
	for _, m := range []string{"capture", "visit"} {
		kinds = append(kinds, q("burl."+m, valid[m][0], true, valid[m][1]))
	}
	ns := []int{9, 16, 17, 32, 33, 40, 64, 65, 100, 128, 129, 200, 256, 257}
	if c.Thorough() {
		ns = nil
		for n := 5; n <= 70; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 5000)
	}
	if !c.Thorough() {
		ns = append(ns, 5000)
	}
	core.Explore(c, "many requests", fmt.Sprintf("N requests in one session, N of %v (5000 only of a single kind; at most 33, thorough: 129, editor runs), all repeated patterns of 1..2 of %d kinds, at once and one by one", ns, len(kinds)), func(yield func(manyCase) bool) {
		for _, n := range ns {
			for wd := range core.Words(len(kinds), 1, 2) {
				runs := 0
				for _, k := range wd {
					if k >= edit {
						runs = n
					}
				}
				if runs > core.Pick(c, 33, 129) || n == 5000 && len(wd) > 1 || !c.Thorough() && len(wd) == 2 && n > 128 && n != 257 {
					continue
				}
				for _, lock := range []bool{false, true} {
					if !yield(manyCase{append([]int{}, wd...), n, lock}) {
						return
					}
				}
			}
		}
	}, func(w *core.Worker, x manyCase) core.Out {
		if c.ReplayCase == nil {
			c.Count("evaluations", x.N)
			c.Distinct(fmt.Sprint("many", x))
		}
		var l []rq
		for i := 0; i < x.N; i++ {
			r := kinds[x.Word[i%len(x.Word)]]
			r.ID = fmt.Sprint(i)
			l = append(l, r)
		}
		o := c05run(w, rqCase{l}, x.Lock)
		if o.Viol != "" {
			o.Viol = fmt.Sprintf("%+v: %s", x, o.Viol)
			o.Min = nil
		}
		return o
	})
}
