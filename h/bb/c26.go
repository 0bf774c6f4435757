package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"verif/core"
	"verif/drv"
)

type logCase struct {
	Hist []int
	Src  int
}

var stampRe = regexp.MustCompile(`^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)? `)

// logLines removes time stamps and order.
func logLines(b []byte) []string {
	var l []string
	for _, s := range strings.Split(string(b), "\n") {
		s = stampRe.ReplaceAllString(s, "")
		if s != "" {
			l = append(l, s)
		}
	}
	sort.Strings(l)
	return l
}

func c26(c *core.Ctx) {
	c.Rule("every history of requests up to the bound, most of which produce diagnostics, is run with every log destination; output streams and the log file are compared with each other; non-trivial: distinct (history, sources)")
	many := make([]string, 17)
	for i := range many {
		many[i] = fmt.Sprintf("x%d", i)
	}
	raw := func(s string) []byte { return []byte(s) }
	reqs := [][]byte{
		drv.Req(0, "hello", map[string]any{"formats": []any{map[string]any{"format": "org-protocol", "version": "0.2"}}}),
		drv.Req(1, "noSuch", nil),
		drv.Req(2, "capture", capture("org-protocol", "org-protocol:/x", nil)),
		drv.Req(3, "linkremark.linkSet", map[string]any{"prefix": many}),
		mentions(4, []string{"http://a.org/x"}, 8),
		drv.Req(5, "burl.linkSet", map[string]any{"prefix": []string{"http"}}),
		raw(`{"id":6,"method":"hello","params":{}}`),
		drv.Req(7, "burl.visit", map[string]any{"file": "/etc/passwd"}),
		drv.Req(8, "capture", capture("org-protocol", "http://x", nil)),
		raw(`not JSON`),
		raw(`{"id":null,"method":"burl.visit","params":["x"]}`),
		drv.Req(11, "linkremark.linkSet", map[string]any{"prefix": []string{"bad prefix \x01\n"}}),
	}
	plans := []string{"9", "1", "o", "n", "k", "x"}
	n := core.Pick(c, 2, 3)
	core.Explore(c, "destinations", fmt.Sprintf("histories of 0..%d of %d requests x 3 source sets x editor outcomes x 11 log destinations (also /dev/null, a pipe, a symbolic link)", n, len(reqs)), func(yield func(logCase) bool) {
		for h := range core.Words(len(reqs), 0, n) {
			for s := 0; s < 3; s++ {
				if !yield(logCase{h, s}) {
					return
				}
			}
		}
	}, func(w *core.Worker, x logCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		drv.WriteFile(dir+"/a.org", "http://a.org/x [[file:x]] [[http:]] <http:> mid:\n")
		src := []string{"-org", dir + "/a.org"}
		switch x.Src {
		case 1:
			src = append(src, "-org", dir+"/missing.org")
		case 2:
			badSource("long", dir+"/long.txt")
			src = append(src, "-txt", dir+"/long.txt")
		}
		plan := plans[(len(x.Hist)+sum(x.Hist)+x.Src)%len(plans)]
		if len(x.Hist) == 1 {
			plan = plans[x.Src*2]
		}
		var ref []string
		var refOut []string
		bodies := [][]byte{}
		for _, k := range x.Hist {
			bodies = append(bodies, reqs[k])
		}
		key := fmt.Sprintf("log:%v:%d", x.Hist, x.Src)
		for di, dest := range []string{"default", "-", "--", "", "new", "old", "relative", "oldnonl", "null", "link", "pipe"} {
			args := append([]string{"-emacsclient", filepath.Join(c.Bin, "fakeemacs")}, src...)
			file, old := "", ""
			pipe := -1
			switch dest {
			case "default":
			case "-":
				args = append(args, "-log", "-")
			case "--":
				args = append([]string{"--log=-"}, args...)
			case "":
				args = append(args, []string{"-log=", "--log="}[x.Src%2])
			case "new":
				file = dir + "/new log"
				args = append(args, "-log", file)
			case "old":
				file, old = dir+"/old.log", "previous\ncontent\n"
				args = append(args, "-log", file)
			case "relative":
				file, old = dir+"/rel.log", strings.Repeat("previous line\n", 1000)
				args = append(args, "-log", "rel.log")
			case "null":
				args = append(args, "-log", "/dev/null")
			case "link":
				file, old = dir+"/target.log", "previous\n"
				symlink("target.log", dir+"/sym.log")
				args = append(args, "-log", dir+"/sym.log")
			case "pipe":
				if err := syscall.Mkfifo(dir+"/pipe", 0600); err != nil {
					return core.Out{Err: err}
				}
				// opened for writing as well, there is always a reader
				fd, err := syscall.Open(dir+"/pipe", syscall.O_RDWR|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err != nil {
					return core.Out{Err: err}
				}
				pipe = fd
				defer syscall.Close(fd)
				args = append(args, "-log", dir+"/pipe")
			case "oldnonl":
				file, old = dir+"/nonl.log", "no newline"
				args = append([]string{"-log=" + file}, args...)
			}
			if old != "" {
				drv.WriteFile(file, old)
			}
			r := backend(w, dir, args...)
			r.Env = drv.FakeEnv(dir+"/fake.log", plan)
			s, bad, err := drv.Burst(r, bodies...)
			if err != nil {
				return core.Out{Err: err}
			}
			fail := func(format string, a ...any) core.Out {
				return core.Bad(key, "log %q, history %v, sources %d, editor outcome %s: %s", dest, x.Hist, x.Src, plan, fmt.Sprintf(format, a...))
			}
			if bad != "" {
				return fail("%s", bad)
			}
			if c.ReplayCase == nil {
				c.Count("evaluations", 1)
			}
			var out []string
			for _, f := range s.Frames {
				r, _ := drv.ParseReply(f)
				out = append(out, string(r.ID)+" "+drv.ReplyKey(r))
			}
			sort.Strings(out)
			var logged []string
			if file != "" {
				data, err := os.ReadFile(file)
				if err != nil {
					return fail("log file: %v", err)
				}
				if !strings.HasPrefix(string(data), old) {
					return fail("earlier content of the log is lost: %.200q", data)
				}
				logged = logLines(data[len(old):])
			} else if pipe >= 0 {
				var data []byte
				buf := make([]byte, 1<<16)
				for {
					n, err := syscall.Read(pipe, buf)
					if n <= 0 || err != nil {
						break
					}
					data = append(data, buf[:n]...)
				}
				logged = logLines(data)
			} else {
				logged = logLines(s.Done.Stderr)
			}
			quiet := dest == "" || dest == "null"
			if (file != "" || quiet || pipe >= 0) && len(s.Done.Stderr) != 0 {
				return fail("output to stderr: %.300q", s.Done.Stderr)
			}
			if di == 0 {
				ref, refOut = logged, out
				if len(ref) > 0 {
					c.Distinct(fmt.Sprint(x))
					c.Count("histories_with_diagnostics", 1)
				}
				continue
			}
			if strings.Join(out, "\n") != strings.Join(refOut, "\n") {
				return fail("replies depend on the log destination:\n%q\n%q", out, refOut)
			}
			if !quiet && strings.Join(logged, "\n") != strings.Join(ref, "\n") {
				return fail("diagnostics differ from the default ones: %q, default %q", logged, ref)
			}
		}
		return core.Out{}
	})
	c26kept(c, reqs)
	c.Sample(string(reqs[3]))
	// several sessions writing to one file in turn
	core.Explore(c, "shared", "two sessions that use one log file, all interleavings of 2+2 requests with diagnostics", core.Slice([]string{"0011", "0101", "0110", "1001", "1010", "1100"}), func(w *core.Worker, order string) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		file := dir + "/shared.log"
		drv.WriteFile(file, "previous\n")
		type st struct {
			w    wc
			done chan struct{}
			out  *drv.Stream
			d    *drv.Done
		}
		ss := make([]*st, 2)
		sent := [2]int{}
		for i := range ss {
			s := &st{done: make(chan struct{})}
			ready := make(chan struct{})
			stop := make(chan struct{})
			ss[i] = s
			r := backend(w, dir, "-log", file)
			r.Feed = func(wr wc, out *drv.Stream) {
				s.w, s.out = wr, out
				close(ready)
				<-stop
			}
			go func() {
				s.d, _ = r.Do()
				close(s.done)
			}()
			<-ready
			defer func() { close(stop); <-s.done }()
			// the log is opened once the first reply has arrived
			sent[i]++
			s.w.Write(drv.Frame(reqs[0]))
			s.out.WaitFrames(1)
		}
		for n, ch := range order {
			i := int(ch - '0')
			p := make([]string, 17)
			p[0] = fmt.Sprintf("session%d-%d", i, n)
			sent[i]++
			ss[i].w.Write(drv.Frame(drv.Req(n, "linkremark.linkSet", map[string]any{"prefix": p})))
			if _, ok := ss[i].out.WaitFrames(sent[i]); !ok {
				return core.Bad("log-shared:"+order, "no reply")
			}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(order)
		}
		data, err := os.ReadFile(file)
		if err != nil {
			return core.Out{Err: err}
		}
		if !strings.HasPrefix(string(data), "previous\n") {
			return core.Bad("log-shared:"+order, "earlier content is lost: %.300q", data)
		}
		found := 0
		for n, ch := range order {
			if strings.Contains(string(data), fmt.Sprintf("session%d-%d", ch-'0', n)) {
				found++
			}
		}
		// either this diagnostics is written always or never
		if found != 0 && found != len(order) {
			return core.Bad("log-shared:"+order, "only %d of %d messages are left in the log: %q", found, len(order), data)
		}
		return core.Out{}
	})
}

func sum(l []int) (n int) {
	for _, x := range l {
		n += x
	}
	return
}
