package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/core"
	"verif/drv"
)

// Everything may take its time: the peer, the editor, the sources, the backend of the client.

func pauses(c *core.Ctx) []float64 {
	return core.Pick(c, []float64{31, 11, 5.5, 3.2, 2.1, 1.1, 0.4, 0.1}, []float64{61, 46, 31, 21, 16, 11, 8, 5.5, 3.2, 2.1, 1.1, 0.4, 0.1})
}

// slowly explores n variants of every pause; the variants of a pause run at the same time.
func slowly(c *core.Ctx, space, bounds string, n int, f func(w *core.Worker, dir string, sec float64, i int) core.Out) {
	type slowCase struct {
		Pause float64
		Only  int // a single variant, negative: all
	}
	core.Explore(c, space, fmt.Sprintf("%s: %d variants x pauses of %v s", bounds, n, pauses(c)), func(yield func(slowCase) bool) {
		for _, s := range pauses(c) {
			if !yield(slowCase{s, -1}) {
				return
			}
		}
	}, func(w *core.Worker, x slowCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		outs := make([]core.Out, n)
		var wg sync.WaitGroup
		for i := range outs {
			if x.Only >= 0 && x.Only != i {
				continue
			}
			d := fmt.Sprintf("%s/%d", dir, i)
			mkdir(d)
			if c.ReplayCase == nil {
				c.Distinct(fmt.Sprint(space, x.Pause, i))
				if c.Prop != "C27" {
					c.Count("evaluations", 1)
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i] = f(w, d, x.Pause, i)
			}()
		}
		wg.Wait()
		for _, o := range outs {
			if o.Err != nil || o.Viol != "" {
				return o
			}
		}
		return core.Out{}
	})
}

func patient(r drv.Run, sec float64) drv.Run {
	r.Limit = drv.HangLimit + time.Duration(3*sec*float64(time.Second))
	return r
}

func nap(sec float64) { time.Sleep(time.Duration(sec * float64(time.Second))) }

// c01slow: pauses at any place of the input do no harm.
func c01slow(c *core.Ctx) {
	places := []string{"before the first byte", "inside of the first length", "after the first length", "inside of the first body", "between the frames", "inside of the second length", "inside of the second body", "after the second frame", "at every byte of the lengths and once inside of bodies"}
	slowly(c, "backend slow", "two requests to the real backend with a pause at some place of the input", len(places), func(w *core.Worker, dir string, sec float64, i int) core.Out {
		drv.WriteFile(dir+"/a.org", "[[http://a.org/x]]\n")
		one := drv.Frame(drv.Req(0, "burl.linkSet", map[string]any{"prefix": []string{"http"}}))
		two := drv.Frame(drv.Req(1, "burl.linkSet", map[string]any{"prefix": []string{"http"}}))
		in := append(append([]byte{}, one...), two...)
		n := len(one)
		cuts := [][]int{{0}, {2}, {4}, {20}, {n}, {n + 1}, {n + 30}, {len(in)}, {1, 2, 3, 4, 40, n, n + 1, n + 2, n + 3, n + 4, n + 40}}[i]
		r := patient(backend(w, dir, "-log", "", "-org", dir+"/a.org"), sec)
		r.Feed = func(out wc, _ *drv.Stream) {
			at := 0
			for _, cut := range cuts {
				out.Write(in[at:cut])
				at = cut
				nap(sec / float64(len(cuts)))
			}
			out.Write(in[at:])
		}
		key := fmt.Sprint("slow:", i)
		d, err := r.Do()
		if err != nil {
			return core.Out{Err: err}
		}
		s, bad := drv.Parse(d)
		if bad == "" && (d.Code != 0 || s.Get(0) == nil || s.Get(1) == nil || !s.Get(0).OK() || !s.Get(1).OK() || len(s.Frames) != 2) {
			bad = "not two successful replies: " + drv.Short(d.String(), 600)
		}
		if bad != "" {
			return core.Bad(key, "pause of %g s %s: %s", sec, places[i], bad)
		}
		return core.Out{}
	})
}

// c02slow: the peer reads late.
func c02slow(c *core.Ctx) {
	slowly(c, "backend slow", "replies of hundreds of KiB read late, the input ended or not", 4, func(w *core.Worker, dir string, sec float64, i int) core.Out {
		drv.WriteFile(dir+"/a.org", "[[http://a.org/"+strings.Repeat("x", 60000)+"]]\n")
		var bodies [][]byte
		k := []int{2, 20}[i/2]
		for id := 0; id < k; id++ {
			bodies = append(bodies, drv.Req(id, "burl.linkSet", map[string]any{"prefix": []string{"http"}}))
		}
		r := patient(backend(w, dir, "-log", "", "-org", dir+"/a.org"), sec)
		r.Env = drv.MinEnv
		r.Args = append([]string{"-c", fmt.Sprintf(`"$0" "$@" | (sleep %g; cat)`, sec), r.Path}, r.Args...)
		r.Path = "/bin/sh"
		f := drv.Burst
		if i%2 == 1 {
			f = drv.Lockstep
		}
		s, bad, err := f(r, bodies...)
		if err != nil {
			return core.Out{Err: err}
		}
		for id := 0; id < k && bad == ""; id++ {
			if rep := s.Get(id); rep == nil || !rep.OK() || len(rep.Result) < 60000 {
				bad = fmt.Sprintf("no whole reply %d: %s", id, drv.Short(s.Done.String(), 600))
			}
		}
		if bad != "" {
			return core.Bad(fmt.Sprint("slow:", i), "output read after %g s: %s", sec, bad)
		}
		return core.Out{}
	})
}

// c12slow: the editor takes its time.
func c12slow(c *core.Ctx) {
	type v struct {
		capture bool
		at      int
		end     string
	}
	var vs []v
	for _, e := range []string{"o", "1"} {
		for at := 0; at < 3; at++ {
			vs = append(vs, v{true, at, e})
			if at < 2 {
				vs = append(vs, v{false, at, e})
			}
		}
	}
	slowly(c, "slow", "the k-th run of the editor for a visit or capture is slow and then succeeds or fails", len(vs), func(w *core.Worker, dir string, sec float64, i int) core.Out {
		x := vs[i]
		f := dir + "/r.org"
		drv.WriteFile(f, "http://a.org/x\n")
		arg := f
		body := drv.Req(0, "burl.visit", map[string]any{"file": f})
		if x.capture {
			arg = "org-protocol:/x"
			body = drv.Req(0, "burl.capture", capture("org-protocol", arg, nil))
		}
		r := patient(backend(w, dir, "-log", "", "-org", f, "-emacsclient", filepath.Join(c.Bin, "fakeemacs")), sec)
		plan := strings.Repeat("o,", x.at) + x.end
		if x.end == "1" {
			plan += ",o"
		}
		r.Env = append(drv.FakeEnv(dir+"/fake.log", plan), fmt.Sprintf("FAKE_SLEEP=%d:%d", x.at, int(sec*1000)))
		key := fmt.Sprint("slow:", i)
		s, bad, err := drv.Lockstep(r, body)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		if rep := s.Get(0); rep == nil || rep.OK() != (x.end == "o") {
			return core.Bad(key, "run %d of the editor takes %g s and ends with %q, request %s: %s", x.at, sec, x.end, body, drv.Short(s.Done.String(), 600))
		}
		runs, err := drv.FakeRuns(dir + "/fake.log")
		if err != nil {
			return core.Out{Err: err}
		}
		n, last := 0, 1
		if x.capture {
			last = 2
		}
		for _, a := range runs {
			n += count(a, arg)
		}
		want := 1
		if x.end == "1" && x.at < last {
			want = 0
		}
		if n != want {
			return core.Bad(key, "run %d of the editor takes %g s and ends with %q, request %s: delivered %d times: %q", x.at, sec, x.end, body, n, runs)
		}
		return core.Out{}
	})
}

// slowFifo writes a text into a new named pipe, with a pause before the byte at.
func slowFifo(path, text string, at int, sec float64) error {
	if err := syscall.Mkfifo(path, 0644); err != nil {
		return err
	}
	go func() {
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		f.WriteString(text[:at])
		nap(sec)
		f.WriteString(text[at:])
	}()
	return nil
}

func freeFifo(path string) {
	if fd, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
		syscall.Close(fd)
	}
}

// slowSources: sources whose data arrive slowly.
func slowSources(c *core.Ctx, tool bool) {
	text := "http://a.org/x\n* H\nhttp://a.org/y and more http://a.org/z\n"
	cuts := []int{0, 7, 22, len(text)}
	slowly(c, "slow pipes", "a source is a pipe which stops before a byte, queried for mentions or a set", 2*len(cuts)*2, func(w *core.Worker, dir string, sec float64, i int) core.Out {
		set, txt, cut := i%2 == 1, i/2%2 == 1, cuts[i/4]
		p := dir + "/s.org"
		if err := slowFifo(p, text, cut, sec); err != nil {
			return core.Out{Err: err}
		}
		defer freeFifo(p)
		opts := []string{"-org", p}
		if txt {
			opts[0] = "-txt"
		}
		key := fmt.Sprint("slow:", i)
		fail := func(d *drv.Done) core.Out {
			return core.Bad(key, "pause of %g s before byte %d of the source %q: %s", sec, cut, opts, drv.Short(d.String(), 600))
		}
		urls := []string{"http://a.org/x", "http://a.org/y", "http://a.org/z"}
		if tool {
			drv.WriteFile(dir+"/last.org", "text\n")
			args := append(append([]string{}, opts...), "http://a.org/z", dir+"/last.org")
			if set {
				args = append(append([]string{"-set", "http"}, opts...), dir+"/last.org")
			} else {
				urls = urls[2:]
			}
			d, err := patient(toolRun(w, dir, args...), sec).Do()
			if err != nil {
				return core.Out{Err: err}
			}
			for _, u := range urls {
				if d.Code != 0 || d.Crashed() || !strings.Contains(string(d.Stdout), u) {
					return fail(d)
				}
			}
			return core.Out{}
		}
		body := mentions(1, urls, big)
		if set {
			body = drv.Req(1, "linkremark.linkSet", map[string]any{"prefix": []string{"http"}})
		}
		s, bad, err := drv.Lockstep(patient(backend(w, dir, append([]string{"-log", ""}, opts...)...), sec), body)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		rep := s.Get(1)
		for _, u := range urls {
			if rep == nil || !rep.OK() || !strings.Contains(drv.ReplyKey(rep), `"`+u+`"`) {
				return fail(s.Done)
			}
		}
		return core.Out{}
	})
}

// c27slow: the backend of the client takes its time.
func c27slow(c *core.Ctx) {
	type v struct{ before, after, status int }
	var vs []v
	for _, st := range []int{0, 3} {
		vs = append(vs, v{1, 0, st}, v{0, 1, st}, v{1, 1, st})
	}
	slowly(c, "slow", "backends which reply or end late", len(vs), func(w *core.Worker, dir string, sec float64, i int) core.Out {
		x := vs[i]
		script := fmt.Sprintf(`sleep %g; printf '\044\000\000\000{"id":0,"result":[1],"error":null}  '; cat >/dev/null; sleep %g; exit %d`, float64(x.before)*sec/float64(x.before+x.after), float64(x.after)*sec/float64(x.before+x.after), x.status)
		r := patient(drv.Run{Path: filepath.Join(c.Bin, "burl_client"), Args: []string{"/bin/sh", "-c", script, "--", "hello"}, Dir: dir}, sec)
		d, err := r.Do()
		if err != nil {
			return core.Out{Err: err}
		}
		if d.Crashed() || (d.Code == 0) != (x.status == 0) || strings.Join(strings.Fields(string(d.Stdout)), "") != "[1]" {
			return core.Bad(fmt.Sprint("slow:", i), "backend %s: %s", script, d)
		}
		return core.Out{}
	})
}
