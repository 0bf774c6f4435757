package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"verif/core"
	"verif/drv"
)

// fifo creates a named pipe that is written to once, in pieces.
// The returned function ends the writer.
func fifo(path string, pieces []string) (stop func(), err error) {
	if err := syscall.Mkfifo(path, 0644); err != nil {
		return nil, err
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f, err := os.OpenFile(path, os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		for i, p := range pieces {
			if i > 0 {
				time.Sleep(time.Millisecond)
			}
			if _, err := f.WriteString(p); err != nil {
				return
			}
		}
	}()
	return func() {
		for {
			// lets the writer go if nobody reads
			fd, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_NONBLOCK, 0)
			select {
			case <-done:
				if err == nil {
					syscall.Close(fd)
				}
				return
			case <-time.After(5 * time.Millisecond):
			}
			if err == nil {
				syscall.Close(fd)
			}
		}
	}, nil
}

type fifoCase struct {
	N, At  int // number of sources, which of them is a pipe (N: all)
	Flag   int // -org, -txt, positional
	Cut    int
	Query  string
	Tool   bool
	Empty  bool
	Linked bool
}

func fifoCases(c *core.Ctx, tool bool) func(yield func(fifoCase) bool) {
	return func(yield func(fifoCase) bool) {
		for n := 1; n <= 3; n++ {
			for at := 0; at <= n; at++ {
				for flag := 0; flag < 3; flag++ {
					for cut := 0; cut < core.Pick(c, 5, 40); cut++ {
						for _, q := range []string{"mentions", "linkSet"} {
							for k := 0; k < 3; k++ {
								if at == n && n == 1 || k > 0 && cut > 1 || k == 1 && (n == 1 || at == n) {
									continue
								}
								if !yield(fifoCase{n, at, flag, cut, q, tool, k == 1, k == 2}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// fifoSources checks sources that are not regular files, as <(command) in a shell.
func fifoSources(c *core.Ctx, tool bool) {
	core.Explore(c, "pipes", "named pipes (also empty, also through a symbolic link) among 1..3 sources, given as Org, text or by name, written in pieces, a single query", fifoCases(c, tool), func(w *core.Worker, x fifoCase) core.Out {
		dir := w.Fresh()
		defer rm(dir)
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint("pipes", x))
		}
		key := "pipes:" + core.ShortHash(fmt.Sprint(x))
		fail := func(format string, a ...any) core.Out {
			return core.Bad(key, "%+v: %s", x, fmt.Sprintf(format, a...))
		}
		var secs []*drv.Sec
		var opts, pos, all []string
		for i := 0; i < x.N; i++ {
			p := fmt.Sprintf("%s/%d.org", dir, i)
			own := fmt.Sprintf("http://n%d.org/y", i)
			text := "text\nhttp://a.org/x z\n" + strings.Repeat("filler\n", 3) + own + "\n"
			sec := &drv.Sec{File: true, Path: p, Links: []drv.Lnk{{URL: "http://a.org/x", Line: 2}, {URL: own, Line: 6}}}
			all = append(all, own)
			if i == x.At || x.At == x.N {
				cut := (x.Cut * 7) % len(text)
				pieces := []string{text[:cut], text[cut:]}
				if x.Cut%3 == 2 {
					pieces = append(strings.SplitAfter(text, "\n"), "")
				}
				if x.Empty {
					pieces, sec.Links, all = nil, nil, all[:len(all)-1]
				}
				real := p
				if x.Linked {
					real = p + ".pipe"
					symlink(real, p)
				}
				stop, err := fifo(real, pieces)
				if err != nil {
					return core.Out{Err: err}
				}
				defer stop()
			} else {
				drv.WriteFile(p, text)
			}
			secs = append(secs, sec)
			switch x.Flag {
			case 2:
				pos = append(pos, p)
			default:
				opts = append(opts, []string{"-org", "-txt"}[x.Flag], p)
			}
		}
		set := map[string]bool{}
		for _, s := range secs {
			secLinks(s, func(u string) { set[u] = true })
		}
		if x.Tool {
			if x.Query == "mentions" {
				bad, err := toolQuery(w, dir, append(opts, pos...), "http://a.org/x", secs)
				return core.Out{Err: err, Viol: bad, Key: key}
			}
			if len(pos) == 0 {
				drv.WriteFile(dir+"/last.org", "text\n")
				pos = append(pos, dir+"/last.org")
			}
			d, err := toolRun(w, dir, append(append([]string{"-set", "http"}, opts...), pos...)...).Do()
			if err != nil {
				return core.Out{Err: err}
			}
			got := strings.Fields(string(d.Stdout))
			bad := d.Crashed() || d.Code != 0 || len(got) != len(set)
			for _, u := range got {
				bad = bad || !set[u]
			}
			if bad {
				return fail("-set: %s, expected %v", d, set)
			}
			return core.Out{}
		}
		body := mentions(1, []string{"http://a.org/x"}, big)
		if x.Query == "linkSet" {
			body = drv.Req(1, "linkremark.linkSet", map[string]any{"prefix": []string{"http"}})
		}
		s, bad, err := drv.Lockstep(backend(w, dir, append(opts, pos...)...), body)
		if err != nil || bad != "" {
			return core.Out{Err: err, Viol: bad, Key: key}
		}
		rep := s.Get(1)
		if rep == nil || !rep.OK() {
			return fail("no successful reply: %s", drv.Short(s.Done.String(), 600))
		}
		if x.Query == "mentions" {
			if df := drv.Diff(rep.Result, secs, matcher("http://a.org/x")); df != "" {
				return fail("%s", df)
			}
			return core.Out{}
		}
		got := drv.ReplyKey(rep)
		for u := range set {
			if !strings.Contains(got, `"`+u+`"`) {
				return fail("no %s in %s", u, got)
			}
		}
		return core.Out{}
	})
}
