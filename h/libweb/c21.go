package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/rpc"
	"net/rpc/jsonrpc"
	"os"
	"os/exec"
	"os/signal"
	"syscall"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"

	"verif/core"
	"verif/drv"
)

func requestID(frame []byte, k int) (string, string) {
	var m struct {
		ID     json.RawMessage `json:"id"`
		Method string          `json:"method"`
		Params []Arg           `json:"params"`
	}
	if err := json.Unmarshal(frame, &m); err != nil || len(m.Params) != 1 || m.Params[0].N != k {
		return "", fmt.Sprintf("request %d on the wire: %.200q %v", k, frame, err)
	}
	return string(m.ID), ""
}

// breakCase: the reply stream is cut or damaged.
type breakCase struct {
	K      int
	Stream []int // >=0: reply to that call, -1: reply with a foreign id, -2-n: second reply to call n, 100+n: error reply to call n
	Cut    int   // number of bytes that arrive, negative: all
	End    string
	Len    int64 // if nonzero the length field of the last item is changed by that difference
	Chunk  int
}

func (x *breakCase) run() string {
	in, out := newPipe(), newPipe()
	var rd io.ReadCloser = in
	if x.Chunk > 0 {
		rd = &chunked{in, x.Chunk}
	}
	cl := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(rd, out, jsonrpc.NewClientCodec))
	defer cl.Close()
	var calls []*rpc.Call
	res := make([]Res, x.K)
	for i := 0; i < x.K; i++ {
		calls = append(calls, cl.Go("m", &Arg{i, "q"}, &res[i], make(chan *rpc.Call, 1)))
	}
	fr, rest := drv.SplitFrames(out.Total())
	if len(fr) != x.K || len(rest) != 0 {
		return fmt.Sprintf("requests on the wire: %.300q", out.Total())
	}
	ids := make([]string, x.K)
	for k := range fr {
		id, bad := requestID(fr[k], k)
		if bad != "" {
			return bad
		}
		ids[k] = id
	}
	want := map[int]string{} // call → expected outcome
	var data []byte
	for n, s := range x.Stream {
		var b []byte
		k := s
		switch {
		case s >= 100:
			k = s - 100
			b = []byte(fmt.Sprintf(`{"id":%s,"result":null,"error":"err %d"}`, ids[k], k))
		case s == -1:
			b = []byte(`{"id":987654,"result":{"N":-1,"Pad":"foreign"},"error":null}`)
		case s <= -2:
			k = -2 - s
			b = []byte(fmt.Sprintf(`{"id":%s,"result":{"N":-2,"Pad":"second"},"error":null}`, ids[k]))
		default:
			b = []byte(fmt.Sprintf(`{"id":%s,"result":{"N":%d,"Pad":"r%d"},"error":null}`, ids[k], k+100, k))
		}
		f := drv.Frame(b)
		whole := true
		if x.Len != 0 && n == len(x.Stream)-1 {
			l := drv.Frame(make([]byte, 0))
			v := int64(len(b)) + x.Len
			for i := range l {
				l[i] = byte(v >> (8 * i))
			}
			copy(f, l)
			whole = false
		}
		data = append(data, f...)
		if x.Cut >= 0 && len(data) > x.Cut {
			whole = false
		}
		if whole && s != -1 {
			if _, ok := want[k]; !ok {
				switch {
				case s >= 100:
					want[k] = fmt.Sprintf("err %d", k)
				case s >= 0:
					want[k] = "ok"
				default:
					want[k] = "second"
				}
			}
		}
	}
	if x.Cut >= 0 && x.Cut < len(data) {
		data = data[:x.Cut]
	}
	if len(data) > 0 {
		in.Write(data)
	}
	if x.End == "error" {
		in.Finish(errStream)
	} else {
		in.Finish(io.EOF)
	}
	for k, call := range calls {
		select {
		case <-call.Done:
		case <-time.After(patience):
			return fmt.Sprintf("call %d does not complete", k)
		}
		switch w, ok := want[k]; {
		case !ok:
			if call.Error == nil {
				return fmt.Sprintf("call %d whose reply has not arrived completed with %+v", k, res[k])
			}
			if res[k] != (Res{}) {
				return fmt.Sprintf("call %d completed with error %v and a result %+v", k, call.Error, res[k])
			}
			var se rpc.ServerError
			if errors.As(call.Error, &se) {
				return fmt.Sprintf("call %d whose reply has not arrived completed with an error of the server %v", k, se)
			}
		case w == "ok":
			if call.Error != nil || res[k] != (Res{k + 100, fmt.Sprint("r", k)}) {
				return fmt.Sprintf("call %d whose reply has arrived completed with %v %+v", k, call.Error, res[k])
			}
		case w == "second":
			if call.Error != nil || res[k] != (Res{-2, "second"}) {
				return fmt.Sprintf("call %d completed with %v %+v", k, call.Error, res[k])
			}
		default:
			if call.Error == nil || call.Error.Error() != w {
				return fmt.Sprintf("call %d completed with %v instead of %s", k, call.Error, w)
			}
		}
	}
	// Further calls complete with an error as well.
	var r Res
	late := cl.Go("m", &Arg{99, "late"}, &r, make(chan *rpc.Call, 1))
	select {
	case <-late.Done:
		if late.Error == nil {
			return fmt.Sprintf("a call after the end of the stream completed with %+v", r)
		}
	case <-time.After(patience):
		return "a call after the end of the stream does not complete"
	}
	return ""
}

type chunked struct {
	*pipe
	n int
}

func (c *chunked) Read(b []byte) (int, error) {
	if len(b) > c.n {
		b = b[:c.n]
	}
	return c.pipe.Read(b)
}

// cmdCase is a behaviour of a launched backend.
type cmdCase struct {
	K       int    // calls
	Read    int    // requests read by the backend before it writes
	Bytes   int    // bytes of the reply stream that are written, negative: all
	Finish  string // exit: at once, close: close stdout and wait for the end of stdin, wait: wait for the end of stdin, kill: die of a signal
	Status  int
	Discard bool // the client does not wait for its calls before closing
	Before  int  // pause before the replies, in 0.1 s
	After   int  // slow: pause after the end of stdin, in 0.1 s
}

type fakePlan struct {
	Read   int
	Out    []byte
	Finish string
	Status int
	Before int
	After  int
}

func fakeBackend(arg string) {
	signal.Ignore(syscall.SIGPIPE) // the client may close its end first
	var p fakePlan
	if err := json.Unmarshal([]byte(arg), &p); err != nil {
		os.Exit(99)
	}
	var in []byte
	buf := make([]byte, 4096)
	for {
		fr, _ := drv.SplitFrames(in)
		if len(fr) >= p.Read {
			break
		}
		n, err := os.Stdin.Read(buf)
		in = append(in, buf[:n]...)
		if err != nil {
			os.Exit(98)
		}
	}
	time.Sleep(time.Duration(p.Before) * 100 * time.Millisecond)
	os.Stdout.Write(p.Out)
	switch p.Finish {
	case "kill":
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	case "close":
		os.Stdout.Close()
		fallthrough
	case "slow":
		io.Copy(io.Discard, os.Stdin)
		time.Sleep(time.Duration(p.After) * 100 * time.Millisecond)
	case "wait":
		io.Copy(io.Discard, os.Stdin)
	}
	os.Exit(p.Status)
}

func (x *cmdCase) run(self string) (string, error) {
	var data []byte
	done := 0
	for k := 0; k < x.K; k++ {
		data = append(data, drv.Frame([]byte(fmt.Sprintf(`{"id":%d,"result":{"N":%d,"Pad":"r%d"},"error":null}`, k, k+100, k)))...)
		if x.Bytes < 0 || x.Bytes >= len(data) {
			done = k + 1
		}
	}
	if x.Bytes >= 0 && x.Bytes < len(data) {
		data = data[:x.Bytes]
	}
	plan, _ := json.Marshal(fakePlan{x.Read, data, x.Finish, x.Status, x.Before, x.After})
	cl, err := webextensions.NewClientCommand([]string{self, "-fakebackend", string(plan)})
	if err != nil {
		return "", err
	}
	if cl == nil {
		return "the command can be run but there is neither a client nor an error", nil
	}
	var calls []*rpc.Call
	res := make([]Res, x.K)
	for i := 0; i < x.K; i++ {
		calls = append(calls, cl.Go("m", &Arg{i, "q"}, &res[i], make(chan *rpc.Call, 1)))
	}
	hung := ""
	completed := make([]bool, x.K)
	if !x.Discard {
		for k, call := range calls {
			if (x.Finish == "wait" || x.Finish == "slow") && k >= done {
				continue // the stream is alive; it ends on Close
			}
			select {
			case <-call.Done:
				completed[k] = true
			case <-time.After(patience):
				hung = fmt.Sprintf("call %d does not complete", k)
			}
		}
	}
	closed := make(chan error, 1)
	go func() { closed <- cl.Close() }()
	var cerr error
	select {
	case cerr = <-closed:
	case <-time.After(patience):
		cl.Command.Process.Kill()
		return "Close does not return", nil
	}
	if hung != "" {
		return hung, nil
	}
	for k, call := range calls {
		if !completed[k] {
			select {
			case <-call.Done:
			case <-time.After(patience):
				return fmt.Sprintf("call %d does not complete after Close", k), nil
			}
		}
		switch {
		case k < done && !x.Discard:
			if call.Error != nil || res[k] != (Res{k + 100, fmt.Sprint("r", k)}) {
				return fmt.Sprintf("call %d whose reply has arrived completed with %v %+v", k, call.Error, res[k]), nil
			}
		case call.Error == nil:
			if k >= done || res[k] != (Res{k + 100, fmt.Sprint("r", k)}) {
				return fmt.Sprintf("call %d completed with %+v", k, res[k]), nil
			}
		}
	}
	if cl.Command.ProcessState == nil {
		return "the command is still running after Close", nil
	}
	if err := syscall.Kill(cl.Command.Process.Pid, 0); err == nil {
		return "the command is still running after Close", nil
	}
	var ee *exec.ExitError
	switch {
	case x.Finish == "kill":
		if !errors.As(cerr, &ee) || ee.ExitCode() != -1 {
			return fmt.Sprintf("Close of a client whose backend was killed returned %v", cerr), nil
		}
	case x.Status == 0:
		if cerr != nil {
			return fmt.Sprintf("Close of a client whose backend succeeded returned %v", cerr), nil
		}
	default:
		if !errors.As(cerr, &ee) || ee.ExitCode() != x.Status {
			return fmt.Sprintf("Close of a client whose backend exited with %d returned %v", x.Status, cerr), nil
		}
	}
	return "", nil
}

func c21(c *core.Ctx) {
	c.Rule("Go client over the framed codec: 1..3 outstanding calls, the reply stream ends at every byte with EOF or an error or has a damaged length; launched backends that end at every byte of the reply stream in every way; non-trivial: distinct (stream, damage)")
	c.Assume("replies with both result and error null are not sent: net/rpc/jsonrpc of the standard library gives up the connection on them")
	run := func(w *core.Worker, x breakCase) core.Out {
		bad := guard(x.run)
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint(x))
		}
		if bad != "" {
			return core.Bad("stream:"+core.ShortHash(bad), "%+v: %s", x, bad)
		}
		return core.Out{}
	}
	streams := func(k int) (l [][]int) {
		// all sequences of distinct replies, ok or error, with one odd item anywhere
		for p := range core.Perms(k) {
			for e := 0; e < 1<<k; e++ {
				s := []int{}
				for _, n := range p {
					if e>>n&1 == 1 {
						s = append(s, 100+n)
					} else {
						s = append(s, n)
					}
				}
				l = append(l, s)
				if k <= 2 || e == 0 {
					for at := 0; at <= len(s); at++ {
						for _, odd := range []int{-1, -2 - p[0]} {
							t := append(append(append([]int{}, s[:at]...), odd), s[at:]...)
							l = append(l, t)
						}
					}
				}
			}
		}
		return
	}
	core.Explore(c, "cut", "1..3 calls, replies and error replies in all orders with a foreign or repeated reply anywhere, the stream ends at every byte with EOF or an error", func(yield func(breakCase) bool) {
		for k := 1; k <= 3; k++ {
			for _, s := range streams(k) {
				total := 70 * len(s)
				for cut := -1; cut <= total; cut++ {
					for _, end := range []string{"eof", "error"} {
						x := breakCase{K: k, Stream: s, Cut: cut, End: end}
						if cut%3 == 0 {
							x.Chunk = 1 + cut%7
						}
						if !yield(x) {
							return
						}
					}
				}
			}
		}
	}, run)
	core.Explore(c, "many", "N calls in progress, N of 5..40 and 63..90, replies in 3 orders, every number of whole replies and cuts inside of the next one", func(yield func(breakCase) bool) {
		for _, n := range manyN(6) {
			if n > 90 {
				continue
			}
			for o := 0; o < 3; o++ {
				s := make([]int, n)
				off := []int{0}
				for i := range s {
					k := []int{i, n - 1 - i, (i + n/2) % n}[o]
					l := len(fmt.Sprintf(`{"id":%d,"result":{"N":%d,"Pad":"r%d"},"error":null}`, k, k+100, k))
					if s[i] = k; k%5 == 4 {
						s[i] += 100
						l = len(fmt.Sprintf(`{"id":%d,"result":null,"error":"err %d"}`, k, k))
					}
					off = append(off, off[i]+4+l)
				}
				for i, at := range off {
					for _, d := range []int{0, 2, 30} {
						if d > 0 && (i%5 > 0 || i == len(off)-1) {
							continue
						}
						if !yield(breakCase{K: n, Stream: s, Cut: at + d, End: []string{"eof", "error"}[i&1], Chunk: []int{0, 1, 17}[i%3]}) {
							return
						}
					}
				}
			}
		}
	}, run)
	core.Explore(c, "length", "the length field of the last reply is wrong", func(yield func(breakCase) bool) {
		for k := 1; k <= 3; k++ {
			for _, s := range streams(k) {
				if s[len(s)-1] < 0 {
					continue
				}
				for _, d := range []int64{-45, -40, -20, -3, -2, -1, 1, 2, 3, 40, 1 << 20, 1<<30 - 100, 1 << 30, 1<<31 - 60, 1 << 31, 3 << 30} {
					for _, end := range []string{"eof", "error"} {
						if d == 1 || d == 2 || d == 3 || d == 40 || d == 1<<20 || d == 1<<30-100 {
							// A whole JSON object has arrived before the stream broke inside of
							// the frame: the call may complete with its own result.
							continue
						}
						if !yield(breakCase{K: k, Stream: s, Cut: -1, End: end, Len: d}) {
							return
						}
					}
				}
			}
		}
	}, run)
	self, err := os.Executable()
	if err != nil {
		c.Error("%v", err)
		return
	}
	command := func(w *core.Worker, x cmdCase) core.Out {
		var err error
		bad := guard(func() string { b, e := x.run(self); err = e; return b })
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint(x))
		}
		if bad != "" {
			return core.Bad("command:"+core.ShortHash(bad), "%+v: %s", x, bad)
		}
		return core.Out{Err: err}
	}
	core.Explore(c, "command", "backends launched by the client: 0..2 calls, 0..2 requests read, output ends at every byte, four ways of ending, three statuses", func(yield func(cmdCase) bool) {
		for k := 0; k <= 2; k++ {
			total := 0
			if k > 0 {
				total = 4 + 51
			}
			total *= k
			for read := k; read <= k; read++ {
				for b := -1; b <= total; b++ {
					for _, f := range []string{"exit", "close", "wait", "kill"} {
						for _, st := range []int{0, 1, 3} {
							if f == "kill" && st != 0 {
								continue
							}
							for _, d := range []bool{false, true} {
								if d && f != "wait" {
									continue
								}
								if !yield(cmdCase{K: k, Read: read, Bytes: b, Finish: f, Status: st, Discard: d}) {
									return
								}
							}
						}
					}
				}
			}
		}
		// backends that do not read requests
		for k := 0; k <= 2; k++ {
			for _, f := range []string{"exit", "close", "wait", "kill"} {
				for _, st := range []int{0, 2} {
					if !yield(cmdCase{K: k, Finish: f, Status: st}) {
						return
					}
				}
			}
		}
	}, command)
	core.Explore(c, "slow", "backends which reply or exit 0.1 to 11 (thorough: 25) s late, 0..2 calls, whole, broken off and no replies", func(yield func(cmdCase) bool) {
		// the slow ones first: the workers sleep together
		for _, t := range core.Pick(c, []int{110, 55, 32, 21, 11, 6, 3, 1}, []int{250, 205, 155, 110, 55, 32, 21, 11, 6, 3, 1}) {
			for k := 0; k <= 2; k++ {
				for _, b := range []int{-1, 0, 20} {
					for _, st := range []int{0, 11 + k} {
						if !yield(cmdCase{K: k, Read: k, Bytes: b, Finish: "slow", Status: st, After: t}) {
							return
						}
						if k > 0 && b != 0 && !yield(cmdCase{K: k, Read: k, Bytes: b, Finish: "exit", Status: st, Before: t}) {
							return
						}
					}
				}
			}
		}
	}, command)
	core.Explore(c, "start", "commands that can not be started", core.Slice([][]string{nil, {}, {"/nonexistent/backend"}, {""}, {"/etc/passwd"}}), func(w *core.Worker, x []string) core.Out {
		bad := guard(func() string {
			cl, err := webextensions.NewClientCommand(x)
			if err == nil {
				cl.Close()
				return "a client is created"
			}
			if len(x) == 0 && !errors.Is(err, webextensions.ErrNoCommand) {
				return fmt.Sprintf("error is %v", err)
			}
			return ""
		})
		if bad != "" {
			return core.Bad("start", "%q: %s", x, bad)
		}
		return core.Out{}
	})
	c.Sample(breakCase{K: 2, Stream: []int{1, 100}, Cut: 60, End: "eof"})
}
