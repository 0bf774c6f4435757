package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"strings"
	"sync"

	"verif/core"
	"verif/drv"
)

// Faults of reads of standard input and writes to standard output of the real backend.

type stdCase struct {
	Seq   []int // kinds of requests
	Fault string
}

// stdBody is the request number id, some with whitespace around the JSON text.
func stdBody(k, id int) []byte {
	switch k {
	case 0:
		return c04body(0, id, "")
	case 1:
		return append([]byte(" \n"), append(c04body(3, id, ""), "\r\n\t "...)...)
	case 2:
		return append(c04body(2, id, ""), '\n')
	}
	return drv.Req(id, "linkremark.linkSet", map[string]any{"prefix": []string{strings.Repeat("http:", 130), "http"}})
}

var stdOnce sync.Once

type stdRun struct {
	d      *drv.Done
	tr     []fsCall
	bodies [][]byte
	ends   []int // offsets of ends of frames in the input
	keep   bool
}

func stdDo(w *core.Worker, which string, x stdCase, keep bool) (*stdRun, error) {
	dir := w.C.Scratch + "/stdsrc"
	log := w.Dir + "/std.log"
	stdOnce.Do(func() {
		mkdir(dir)
		drv.WriteFile(dir+"/a.org", "* H\nhttp://a.org/x\n** Other http://a.org/x\nhttps://b.org/?q\n")
	})
	res := &stdRun{}
	var in []byte
	for i, k := range x.Seq {
		b := stdBody(k, i)
		res.bodies = append(res.bodies, b)
		in = append(in, drv.Frame(b)...)
		res.ends = append(res.ends, len(in))
	}
	spec := which
	if x.Fault != "" {
		spec += "," + x.Fault
	}
	r := drv.Run{Path: filepath.Join(w.C.Bin, "fstrace"), Dir: dir, Stdin: in, Args: []string{log, spec, "/nonexistent", filepath.Join(w.C.Bin, "burl_backend"),
		"-log", "", "-emacsclient", filepath.Join(w.C.Bin, "fakeemacs"), "-org", dir + "/a.org"}}
	if keep {
		r.Feed = func(wr wc, out *drv.Stream) {
			wr.Write(in)
			out.WaitFrames(1 << 30)
		}
	}
	d, err := r.Do()
	if err != nil {
		return nil, err
	}
	if d.Code == 99 {
		return nil, fmt.Errorf("tracing failed")
	}
	res.d = d
	res.tr, err = parseTrace(log)
	return res, err
}

// stdLevels explores runs without faults and then all faults of them.
func stdLevels(c *core.Ctx, name, which, bounds string, n int, expand func(x stdCase, r *stdRun) []string, judge func(x stdCase, ref, r *stdRun) string, keep bool) {
	var mu sync.Mutex
	var level []stdCase
	refs := map[string]*stdRun{}
	run := func(w *core.Worker, x stdCase) (r *stdRun, o core.Out) {
		key := fmt.Sprintf("%s:%v:%s", name, x.Seq, x.Fault)
		mu.Lock()
		ref := refs[fmt.Sprint(x.Seq)]
		mu.Unlock()
		if ref == nil {
			var err error
			if ref, err = stdDo(w, which, stdCase{Seq: x.Seq}, false); err != nil {
				return nil, core.Out{Err: err}
			}
			mu.Lock()
			refs[fmt.Sprint(x.Seq)] = ref
			mu.Unlock()
		}
		r, err := stdDo(w, which, x, keep && x.Fault != "")
		if err != nil {
			return nil, core.Out{Err: err}
		}
		if c.ReplayCase == nil {
			c.Count("evaluations", 1)
			c.Distinct(fmt.Sprint(x))
		}
		if bad := judge(x, ref, r); bad != "" {
			return nil, core.Bad(key, "%+v: %s: %s", x, bad, drv.Short(r.d.String(), 900))
		}
		return r, core.Out{}
	}
	core.Explore(c, name, fmt.Sprintf("real backend, all sequences of 1..%d of 4 kinds of requests (three may read the sources)", n), func(yield func(stdCase) bool) {
		for s := range core.Words(4, 1, n) {
			if !yield(stdCase{Seq: s}) {
				return
			}
		}
	}, func(w *core.Worker, x stdCase) core.Out {
		r, o := run(w, x)
		if r != nil {
			mu.Lock()
			for _, f := range expand(x, r) {
				level = append(level, stdCase{x.Seq, f})
			}
			mu.Unlock()
		}
		return o
	})
	core.Explore(c, name+", faults", bounds, core.Slice(level), func(w *core.Worker, x stdCase) core.Out {
		_, o := run(w, x)
		return o
	})
}

// sameReplies compares replies by id.
func sameReplies(ref, r *stdRun, n int) string {
	s0, bad := drv.Parse(ref.d)
	if bad != "" {
		return bad
	}
	s, bad := drv.Parse(r.d)
	if bad != "" {
		return bad
	}
	if len(s.Frames) != n {
		return fmt.Sprintf("%d replies instead of %d", len(s.Frames), n)
	}
	for i := 0; i < n; i++ {
		a, b := s0.Get(i), s.Get(i)
		if a == nil || b == nil {
			return fmt.Sprintf("no single reply to request %d", i)
		}
		if drv.ReplyKey(a) != drv.ReplyKey(b) {
			return fmt.Sprintf("request %d is answered with %s instead of %s", i, drv.Short(string(b.Raw), 400), drv.Short(string(a.Raw), 400))
		}
	}
	return ""
}

func c01std(c *core.Ctx) {
	c.Rule("the real backend reads its input in pieces chosen by a tracer that shortens read calls")
	stdLevels(c, "backend input", "stdin", "every read of at most K bytes, K of 1..32 (thorough 1..200); a single read at every place shortened to every length", core.Pick(c, 2, 3), func(x stdCase, r *stdRun) (l []string) {
		for k := 1; k <= core.Pick(c, 32, 200); k++ {
			l = append(l, fmt.Sprintf("*:read=%d", k))
		}
		for _, cl := range r.tr {
			if cl.Name != "read" {
				continue
			}
			l = append(l, fmt.Sprintf("%d:err=4", cl.N))
			for k := 1; k < cl.Res; k++ {
				if len(x.Seq) > core.Pick(c, 1, 2) && k > 6 && k < cl.Res-6 && k%5 != 0 {
					continue
				}
				l = append(l, fmt.Sprintf("%d:len=%d", cl.N, k))
			}
		}
		return
	}, func(x stdCase, ref, r *stdRun) string {
		if r.d.Code != 0 {
			return fmt.Sprintf("exit status %d", r.d.Code)
		}
		return sameReplies(ref, r, len(x.Seq))
	}, false)
}

func c02std(c *core.Ctx) {
	c.Rule("the output of the real backend is cut at every byte by a tracer that shortens a write call and fails the later ones; what is received must be a prefix of a sequence of frames of expected replies")
	stdLevels(c, "backend output", "stdout", "every write shortened to every length, then nothing, EPIPE, EIO or a kill for the rest", core.Pick(c, 2, 3), func(x stdCase, r *stdRun) (l []string) {
		for _, cl := range r.tr {
			if cl.Name != "write" {
				continue
			}
			for _, e := range []int{32, 5} {
				l = append(l, fmt.Sprintf("%d:rest=%d", cl.N, e))
			}
			for k := 1; k < cl.Res; k++ {
				if (len(x.Seq) > 1 || !c.Thorough()) && k > 6 && k < cl.Res-6 && k%7 != 0 {
					continue
				}
				l = append(l, fmt.Sprintf("%d:len=%d", cl.N, k), fmt.Sprintf("%d:torn=%d", cl.N, k))
				for _, e := range []int{32, 5} {
					l = append(l, fmt.Sprintf("%d:len=%d,%d:rest=%d", cl.N, k, cl.N+1, e))
				}
			}
		}
		return
	}, func(x stdCase, ref, r *stdRun) string {
		if !strings.Contains(x.Fault, "rest") && !strings.Contains(x.Fault, "torn") {
			return sameReplies(ref, r, len(x.Seq))
		}
		if r.d.Hang {
			return "hang"
		}
		s0, bad := drv.Parse(ref.d)
		if bad != "" {
			return bad
		}
		frames, rest := drv.SplitFrames(r.d.Stdout)
		seen := map[string]bool{}
		for _, f := range frames {
			rep, err := drv.ParseReply(f)
			if err != nil {
				return err.Error()
			}
			id := string(rep.ID)
			if l := s0.Replies[id]; len(l) != 1 || seen[id] || drv.ReplyKey(l[0]) != drv.ReplyKey(rep) {
				return fmt.Sprintf("unexpected reply %.300q", f)
			}
			seen[id] = true
		}
		if len(rest) < 4 {
			if len(rest) > 0 && len(frames) == len(x.Seq) {
				return fmt.Sprintf("%d bytes after all replies", len(rest))
			}
			return ""
		}
		for _, f := range s0.Frames {
			if bytes.HasPrefix(drv.Frame(f), rest) {
				return ""
			}
		}
		if n := binary.NativeEndian.Uint32(rest); int(n) < len(rest)-4 || n > 1<<20 {
			return fmt.Sprintf("size of the last frame is %d", n)
		}
		var v any
		if err := json.NewDecoder(bytes.NewReader(rest[4:])).Decode(&v); len(rest) > 4 && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF) && err != nil {
			return fmt.Sprintf("last frame is %.300q: %v", rest, err)
		}
		return ""
	}, false)
}

func c04std(c *core.Ctx) {
	stdLevels(c, "failing input", "stdin", "an error (EIO, ECONNRESET, EISDIR) at every read of standard input that stays open, also after a short read", core.Pick(c, 2, 3), func(x stdCase, r *stdRun) (l []string) {
		for _, cl := range r.tr {
			if cl.Name != "read" {
				continue
			}
			for _, e := range []int{5, 104, 21} {
				l = append(l, fmt.Sprintf("%d:rest=%d", cl.N, e))
			}
			for k := 1; k < cl.Res; k++ {
				if len(x.Seq) > core.Pick(c, 1, 2) && k > 6 && k < cl.Res-6 && k%5 != 0 {
					continue
				}
				l = append(l, fmt.Sprintf("%d:len=%d,%d:rest=5", cl.N, k, cl.N+1))
			}
		}
		return
	}, func(x stdCase, ref, r *stdRun) string {
		if r.d.Crashed() {
			return "crash or hang"
		}
		got := 0
		for _, cl := range r.tr {
			if cl.Name == "read" && cl.Res > 0 {
				got += cl.Res
			}
		}
		n := 0
		for n < len(r.ends) && r.ends[n] <= got {
			n++
		}
		bad := sameReplies(ref, r, n)
		if bad != "" && n < len(r.ends) && got >= r.ends[n]-len(r.bodies[n])+len(bytes.TrimRight(r.bodies[n], " \t\r\n")) {
			// only blanks after the message are missing
			return sameReplies(ref, r, n+1)
		}
		return bad
	}, true)
}
