package main

import (
	"encoding/binary"
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"verif/core"
	"verif/drv"
)

type dmgCase struct {
	Before int    // requests framed before the damage
	First  int    // kind of the first of them
	Kind   string // trunc, size, body, short, large
	N      int64
	Body   string
	After  int // valid frames after the damage
}

func c04body(kind, id int, uri string) []byte {
	switch kind {
	case 0:
		return drv.Req(id, "hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "0.2"}}, "version": "0.2"})
	case 1:
		return drv.Req(id, "capture", capture("org-protocol", uri, nil))
	case 2:
		return mentions(id, []string{"http://a.org/x"}, 3)
	}
	return drv.Req(id, "linkremark.noSuch", nil)
}

func c04(c *core.Ctx) {
	c.Rule("histories of 0..3 valid requests followed by one damage at its every place and by further valid frames; stdin stays open unless the damage is a truncation; the session must end by itself, exactly the earlier requests are answered and acted upon; non-trivial: distinct (history, damage)")
	c.Assume("data segment of the backend is limited to 400 MB (setrlimit) so that reserving memory for a huge announced frame fails, and the peak resident size is compared with 150 MB")
	var cases []dmgCase
	for before := 0; before <= 3; before++ {
		for k := 0; k < 4; k++ {
			if before == 0 && k > 0 {
				continue
			}
			n := len(drv.Frame(c04body(1, 9, "org-protocol:/damaged")))
			for i := 0; i < n; i++ {
				if !c.Thorough() && i > 4 && i < n-4 && (i%3 != before%3) {
					continue
				}
				cases = append(cases, dmgCase{Before: before, First: k, Kind: "trunc", N: int64(i)})
			}
			for _, after := range []int{0, 1, 2} {
				for _, size := range []int64{1<<30 + 1, 1<<30 + 2, 1<<30 + 1<<16, 0x7fffffff, 0x7ffffffe, 0x80000000, 0x80000001, 0x8000004f, 0xffffffff, 0xfffffffe, 0xffffff00, 0x5b7b2269, 0x7b226964} {
					cases = append(cases, dmgCase{Before: before, First: k, Kind: "size", N: size, After: after})
				}
				for _, b := range []string{"", " ", "\n", "1", "\"s\"", "[]", "[{}]", "true", "x", "{", "}", "nul", "\xff", "\x00", "{'id':1}", "{\"id\":1,}", "{\"id\" 1}", "@-1", "@-5", "@-40", "@,}", "@{\"id\":8,\"method\":\"capture\",\"params\":[{\"format\":\"org-protocol\",\"data\":{\"url\":\"org-protocol:/damaged\"}}", "\xef\xbb\xbf{}", strings.Repeat("[", 3000), strings.Repeat("[", 20000), strings.Repeat("{\"a\":", 20000), "00000000", "-", "\"unfinished"} {
					cases = append(cases, dmgCase{Before: before, First: k, Kind: "body", Body: b, After: after})
				}
				for _, s := range []int64{1, 2, 17} {
					cases = append(cases, dmgCase{Before: before, First: k, Kind: "short", N: s, After: after})
				}
			}
			// the largest permitted frame of which little arrives
			for _, size := range []int64{1 << 30, 1<<30 - 1, 1 << 29} {
				cases = append(cases, dmgCase{Before: before, First: k, Kind: "large", N: size})
			}
		}
	}
	c.Sample(cases[3])
	c.Sample(cases[len(cases)-1])
	core.Explore(c, "damage", "0..3 earlier requests x 4 kinds of the first one x (every truncation point, 13 oversized lengths, 29 bodies, body longer than announced, huge permitted length) x 0..2 later frames", core.Slice(cases), func(w *core.Worker, x dmgCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		log := dir + "/fake.log"
		drv.WriteFile(dir+"/a.org", "* H\nhttp://a.org/x\n")
		r := drv.Run{Path: "/bin/sh", Args: []string{"-c", `ulimit -d 400000; exec "$@"`, "sh", filepath.Join(c.Bin, "burl_backend"), "-emacsclient", filepath.Join(c.Bin, "fakeemacs"), "-org", dir + "/a.org"}, Dir: dir}
		r.Env = drv.FakeEnv(log, "o")
		r.Limit = 30 * time.Second
		var in []byte
		uris := map[string]bool{}
		for i := 0; i < x.Before; i++ {
			k := (x.First + i) % 4
			u := fmt.Sprintf("org-protocol:/ok%d", i)
			if k == 1 {
				uris[u] = true
			}
			in = append(in, drv.Frame(c04body(k, i, u))...)
		}
		bad := c04body(1, 9, "org-protocol:/damaged")
		head := func(n int64) []byte {
			h := make([]byte, 4)
			binary.NativeEndian.PutUint32(h, uint32(n))
			return h
		}
		closeIn := false
		switch x.Kind {
		case "trunc":
			in = append(in, drv.Frame(bad)[:x.N]...)
			closeIn = true
		case "size":
			in = append(in, head(x.N)...)
			in = append(in, bad...)
		case "large":
			in = append(in, head(x.N)...)
			in = append(in, bad[:len(bad)-3]...)
			closeIn = true
		case "short":
			in = append(in, head(int64(len(bad))-x.N)...)
			in = append(in, bad...)
		case "body":
			b := []byte(x.Body)
			switch {
			case strings.HasPrefix(x.Body, "@-"):
				n := 0
				fmt.Sscan(x.Body[2:], &n)
				b = bad[:len(bad)-n]
			case strings.HasPrefix(x.Body, "@{"):
				b = []byte(x.Body[1:])
			case x.Body == "@,}":
				b = append(append([]byte{}, bad[:len(bad)-1]...), ",}"...)
			}
			in = append(in, drv.Frame(b)...)
		}
		for i := 0; i < x.After; i++ {
			in = append(in, drv.Frame(c04body(1, 20+i, fmt.Sprintf("org-protocol:/after%d", i)))...)
		}
		r.Feed = func(wr wc, out *drv.Stream) {
			wr.Write(in)
			if !closeIn {
				out.WaitFrames(1 << 30)
			}
		}
		d, err := r.Do()
		if err != nil {
			return core.Out{Err: err}
		}
		key := fmt.Sprintf("damage:%s:%d:%.20s", x.Kind, x.N, x.Body)
		s, broken := drv.Parse(d)
		if broken != "" {
			return core.Bad(key, "%+v: %s", short4(x), broken)
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		for i := 0; i < x.Before; i++ {
			rep := s.Get(i)
			if rep == nil {
				return core.Bad(key, "%+v: request %d framed before the damage is not answered: %s", short4(x), i, drv.Short(d.String(), 700))
			}
			if rep.OK() != ((x.First+i)%4 != 3) {
				return core.Bad(key, "%+v: request %d framed before the damage: %s", short4(x), i, rep.Raw)
			}
		}
		extra := len(s.Frames) - x.Before
		if extra != 0 {
			return core.Bad(key, "%+v: %d unexpected replies: %s", short4(x), extra, drv.Short(d.String(), 900))
		}
		runs, err := drv.FakeRuns(log)
		if err != nil {
			return core.Out{Err: err}
		}
		for _, argv := range runs {
			for _, a := range argv {
				if strings.HasPrefix(a, "org-protocol:") && !uris[a] {
					return core.Bad(key, "%+v: damaged or later request is acted upon: %q", short4(x), argv)
				}
			}
		}
		if d.Rss > 150<<10 {
			return core.Bad(key, "%+v: resident size is %d KiB", short4(x), d.Rss)
		}
		return core.Out{}
	})
	c04std(c)
}

func short4(x dmgCase) dmgCase {
	x.Body = drv.Short(x.Body, 60)
	return x
}
