package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"verif/core"
	"verif/drv"
)

// Large messages through the real executables.

type largeCase struct {
	Size  int  // bytes of the JSON text
	Where int  // where the bytes are: 0 whitespace before, 1 inside, 2 after, 3 string in a parameter, 4 field to ignore, 5 id
	Next  bool // two such messages in a row
}

func (x largeCase) body(id int) []byte {
	arg := `{"prefix":["http"]}`
	f := func(pre, mid, fld, arg, idp, post string) []byte {
		i := fmt.Sprint(id)
		if idp != "" {
			i = `"` + i + idp + `"`
		}
		return []byte(pre + `{"id":` + i + `,` + mid + fld + `"method":"burl.linkSet","params":[` + arg + `]}` + post)
	}
	base := len(f("", "", "", arg, "", ""))
	pad := func(extra int) string {
		if n := x.Size - base - extra; n > 0 {
			return strings.Repeat(" ", n)
		}
		return ""
	}
	txt := func(extra int) string { return strings.ReplaceAll(pad(extra), " ", "z") }
	switch x.Where {
	case 0:
		return f(pad(0), "", "", arg, "", "")
	case 1:
		return f("", pad(0), "", arg, "", "")
	case 2:
		return f("", "", "", arg, "", pad(0))
	case 3:
		return f("", "", "", `{"prefix":["http","`+txt(3)+`"]}`, "", "")
	case 4:
		return f("", "", `"more":"`+txt(10)+`",`, arg, "", "")
	}
	return f("", "", "", arg, "-"+txt(3), "")
}

func largeCases(c *core.Ctx) []largeCase {
	var l []largeCase
	top := core.Pick(c, 22, 27)
	for k := 8; k <= top; k++ {
		for _, d := range []int{-1, 0, 1, 3} {
			for wh := 0; wh < 6; wh++ {
				if k > core.Pick(c, 18, 24) && (d != 0 || wh == 5) {
					continue
				}
				l = append(l, largeCase{1<<k + d, wh, false})
				if k <= 18 && d == 0 {
					l = append(l, largeCase{1<<k + d, wh, true})
				}
			}
		}
	}
	return l
}

func c01large(c *core.Ctx) {
	c.Rule("large requests to the real backend are followed by others; all replies are compared with those of small requests of the same meaning")
	core.Explore(c, "backend large", fmt.Sprintf("requests of 2^k-1, 2^k, 2^k+1, 2^k+3 bytes, k of 8..%d, the bytes as whitespace before, inside, after, as a string, an ignored field, the id; alone and two in a row", core.Pick(c, 22, 27)), core.Slice(largeCases(c)), func(w *core.Worker, x largeCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		drv.WriteFile(dir+"/a.org", "[[http://a.org/x]]\n")
		bodies := [][]byte{x.body(0)}
		if x.Next {
			bodies = append(bodies, x.body(1))
		}
		bodies = append(bodies, drv.Req(7, "burl.linkSet", map[string]any{"prefix": []string{"http"}}))
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprintf("large %+v", x))
		}
		r := backend(w, dir, "-org", dir+"/a.org")
		var in []byte
		for _, b := range bodies {
			in = append(in, drv.Frame(b)...)
		}
		r.Stdin = in
		d, err := r.Do()
		if err != nil {
			return core.Out{Err: err}
		}
		s, bad := drv.Parse(d)
		key := fmt.Sprintf("large:%d:%d:%v", x.Size, x.Where, x.Next)
		if bad == "" && len(s.Frames) != len(bodies) {
			bad = fmt.Sprintf("%d replies to %d requests", len(s.Frames), len(bodies))
		}
		if bad == "" {
			n := map[string]int{}
			for _, l := range s.Replies {
				f := l[0]
				if !f.OK() || drv.Canon(f.Result) != `{"urls":["http://a.org/x"]}` {
					bad = "wrong reply " + drv.Short(string(f.Raw), 300)
				}
				n[string(f.ID)] += len(l)
			}
			for i, b := range bodies {
				id := fmt.Sprint(i)
				if i == len(bodies)-1 {
					id = "7"
				} else if x.Where == 5 {
					t := string(b)
					t = t[strings.Index(t, `"id":`)+5:]
					id = t[:strings.Index(t, ",")]
				}
				if bad == "" && n[id] != 1 {
					bad = fmt.Sprintf("%d replies with the id %s", n[id], drv.Short(id, 60))
				}
			}
		}
		if bad != "" {
			return core.Bad(key, "%+v: %s: %s", x, bad, drv.Short(d.String(), 600))
		}
		return core.Out{}
	})
}

type largeOut struct {
	Size  int // bytes of all links together
	Links int
	Reqs  int // at once
	Kind  int // 0 linkSet, 1 urlMentions of the last link (tree with one link), 2 urlMentions of all with a limit above their number
}

func c02large(c *core.Ctx) {
	c.Rule("large replies of the real backend: results are compared with links in the generated source file")
	var l []largeOut
	top := core.Pick(c, 20, 24)
	for k := 6; k <= top; k++ {
		for _, d := range []int{-1, 0, 1} {
			for _, n := range []int{1, 2, 7, 64, 1000} {
				if per := (1<<k + d) / n; per < 24 || per > 50000 {
					continue
				}
				for _, q := range []int{1, 4} {
					for kind := 0; kind < 3; kind++ {
						if k > 17 && (d != 0 || q != 1 && k > 19) {
							continue
						}
						l = append(l, largeOut{1<<k + d, n, q, kind})
					}
				}
			}
		}
	}
	core.Explore(c, "backend large output", fmt.Sprintf("1..1000 links of 2^k-1, 2^k, 2^k+1 bytes together, k of 6..%d, 1 or 4 requests at once of linkSet, urlMentions of one link, urlMentions of up to 64 links", top), core.Slice(l), func(w *core.Worker, x largeOut) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		var urls []string
		var sb strings.Builder
		per, rest := x.Size/x.Links, x.Size%x.Links
		for i := 0; i < x.Links; i++ {
			u := fmt.Sprintf("http://a.org/%d/", i)
			n := per
			if i < rest {
				n++
			}
			u += strings.Repeat("y", n-len(u)-1) + "x"
			urls = append(urls, u)
			sb.WriteString("[[" + u + "]]\n")
		}
		drv.WriteFile(dir+"/a.org", sb.String())
		var bodies [][]byte
		want := map[string]bool{}
		for i := 0; i < x.Reqs; i++ {
			switch x.Kind {
			case 0:
				bodies = append(bodies, drv.Req(i, "burl.linkSet", map[string]any{"prefix": []string{"http"}}))
			case 1:
				bodies = append(bodies, drv.Req(i, "burl.urlMentions", map[string]any{"variants": urls[len(urls)-1:], "options": map[string]any{"countLimit": 3}}))
			case 2:
				q := urls
				if len(q) > 64 {
					q = q[:64]
				}
				bodies = append(bodies, drv.Req(i, "burl.urlMentions", map[string]any{"variants": q, "options": map[string]any{"countLimit": 2000}}))
			}
		}
		exp := urls
		if x.Kind == 1 {
			exp = urls[len(urls)-1:]
		} else if x.Kind == 2 && len(exp) > 64 {
			exp = exp[:64]
		}
		for _, u := range exp {
			want[u] = true
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprintf("largeout %+v", x))
		}
		r := backend(w, dir, "-org", dir+"/a.org")
		s, bad, err := drv.Burst(r, bodies...)
		if err != nil {
			return core.Out{Err: err}
		}
		if bad == "" && s.Done.Code != 0 {
			bad = fmt.Sprintf("exit status %d", s.Done.Code)
		}
		if bad == "" && len(s.Frames) != len(bodies) {
			bad = fmt.Sprintf("%d replies to %d requests", len(s.Frames), len(bodies))
		}
		for i := range bodies {
			if bad != "" {
				break
			}
			p := s.Get(i)
			if p == nil || !p.OK() {
				bad = fmt.Sprintf("no single successful reply to request %d", i)
				break
			}
			var got []string
			var v any
			json.Unmarshal(p.Result, &v)
			var walk func(v any)
			walk = func(v any) {
				switch t := v.(type) {
				case map[string]any:
					for k, e := range t {
						if k == "urls" {
							for _, u := range e.([]any) {
								got = append(got, fmt.Sprint(u))
							}
						} else if k == "url" {
							got = append(got, fmt.Sprint(e))
						} else {
							walk(e)
						}
					}
				case []any:
					for _, e := range t {
						walk(e)
					}
				}
			}
			walk(v)
			seen := map[string]bool{}
			for _, u := range got {
				if !want[u] || seen[u] {
					bad = fmt.Sprintf("reply %d has a wrong or repeated link of %d bytes", i, len(u))
				}
				seen[u] = true
			}
			if bad == "" && len(seen) != len(want) {
				bad = fmt.Sprintf("reply %d has %d links instead of %d", i, len(seen), len(want))
			}
		}
		if bad != "" {
			return core.Bad(fmt.Sprintf("largeout:%+v", x), "%+v: %s: %s", x, bad, drv.Short(s.Done.String(), 600))
		}
		return core.Out{}
	})
}
