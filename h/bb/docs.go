package main

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"verif/core"
	"verif/drv"
)

// Doc is a generated note file together with the model of its content.
type Doc struct {
	Name    string
	Flag    string // "org", "txt" or "" (positional)
	Content string
	Sec     *drv.Sec // Path is filled when the file is written
}

var tailRe = regexp.MustCompile(`/*\??&*#?$`)

// equivalent is the reference for property C10: may recorded r answer query q.
func equivalent(q, r string) bool {
	alts := []string{q}
	if strings.HasPrefix(q, "http:") {
		alts = append(alts, "https:"+q[5:])
	} else if strings.HasPrefix(q, "https:") {
		alts = append(alts, "http:"+q[6:])
	}
	for _, a := range alts {
		if strings.HasPrefix(a, r) && len(r) >= tailRe.FindStringIndex(a)[0] {
			return true
		}
	}
	return false
}

func matcher(queries ...string) func(string) bool {
	return func(u string) bool {
		for _, q := range queries {
			if q != "" && equivalent(q, u) {
				return true
			}
		}
		return false
	}
}

// orgBuilder composes an Org file line by line keeping track of the outline.
type orgBuilder struct {
	b     strings.Builder
	line  int
	root  *drv.Sec
	stack []*drv.Sec
	level []int
	eol   string
}

func newOrg(eol string) *orgBuilder {
	if eol == "" {
		eol = "\n"
	}
	r := &drv.Sec{File: true}
	return &orgBuilder{root: r, stack: []*drv.Sec{r}, level: []int{0}, eol: eol}
}

// Line adds a line with given links (Line of links is filled).
func (o *orgBuilder) Line(text string, links ...drv.Lnk) {
	o.line++
	o.b.WriteString(text)
	o.b.WriteString(o.eol)
	cur := o.stack[len(o.stack)-1]
	for _, l := range links {
		l.Line = o.line
		cur.Links = append(cur.Links, l)
	}
}

// Heading adds a heading line: stars, blanks, text, trailing blanks.
func (o *orgBuilder) Heading(level int, sep, text, trail string, links ...drv.Lnk) {
	for o.level[len(o.level)-1] >= level {
		o.level = o.level[:len(o.level)-1]
		o.stack = o.stack[:len(o.stack)-1]
	}
	s := &drv.Sec{Text: text, Line: o.line + 1}
	top := o.stack[len(o.stack)-1]
	top.Subs = append(top.Subs, s)
	o.stack = append(o.stack, s)
	o.level = append(o.level, level)
	o.Line(strings.Repeat("*", level)+sep+text+trail, links...)
}

func (o *orgBuilder) Doc(finalEOL bool) *Doc {
	c := o.b.String()
	if !finalEOL {
		c = strings.TrimSuffix(c, o.eol)
	}
	return &Doc{Content: c, Sec: o.root, Flag: "org"}
}

// writeDocs writes the files and returns backend options in order.
func writeDocs(dir string, docs []*Doc) []string {
	var args, pos []string
	for i, d := range docs {
		name := d.Name
		if name == "" {
			ext := d.Flag
			if ext == "" {
				ext = "org"
			}
			name = fmt.Sprintf("%04d.%s", i, ext)
		}
		p := filepath.Join(dir, name)
		drv.WriteFile(p, d.Content)
		d.Sec.Path = p
		d.Sec.File = true
		switch d.Flag {
		case "":
			pos = append(pos, p)
		default:
			args = append(args, "-"+d.Flag, p)
		}
	}
	return append(args, pos...)
}

const big = 1000000

type query struct {
	variants []string
	limit    any // nil: no options
}

func mentions(id any, variants []string, limit any) []byte {
	q := map[string]any{"variants": variants}
	if limit != nil {
		q["options"] = map[string]any{"countLimit": limit}
	}
	return drv.Req(id, "linkremark.urlMentions", q)
}

func backend(w *core.Worker, dir string, args ...string) drv.Run {
	return drv.Run{Path: filepath.Join(w.C.Bin, "burl_backend"), Args: args, Dir: dir}
}

// noLinks tells whether the model has no link of any kind: the backend then
// may answer with an error since there is nothing to search in.
func noLinks(docs []*Doc) bool {
	var rec func(s *drv.Sec) bool
	rec = func(s *drv.Sec) bool {
		if len(s.Links) > 0 {
			return false
		}
		for _, c := range s.Subs {
			if !rec(c) {
				return false
			}
		}
		return true
	}
	for _, d := range docs {
		if !rec(d.Sec) {
			return false
		}
	}
	return true
}

// checkMentions runs one backend over docs and compares the answers to the
// queries (each a list of variants) with the model.
func checkMentions(w *core.Worker, docs []*Doc, queries [][]string, extra ...string) (string, error) {
	dir := w.Fresh()
	defer rm(dir)
	args := append(append([]string{}, extra...), writeDocs(dir, docs)...)
	var bodies [][]byte
	for i, q := range queries {
		bodies = append(bodies, mentions(i, q, big))
	}
	s, bad, err := drv.Burst(backend(w, dir, args...), bodies...)
	if err != nil {
		return "", err
	}
	if bad != "" {
		return bad, nil
	}
	var secs []*drv.Sec
	for _, d := range docs {
		secs = append(secs, d.Sec)
	}
	for i, q := range queries {
		r := s.Get(i)
		if r == nil {
			return fmt.Sprintf("no single reply to query %q: %s", q, drv.Short(s.Done.String(), 900)), nil
		}
		if !r.OK() {
			if noLinks(docs) {
				continue
			}
			return fmt.Sprintf("query %q: error reply %v", q, r.Error), nil
		}
		w.C.Count("replies_compared", 1)
		if d := drv.Diff(r.Result, secs, matcher(q...)); d != "" {
			return fmt.Sprintf("query %q: %s", q, d), nil
		}
	}
	return "", nil
}
