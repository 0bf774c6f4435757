package main

import (
	"errors"
	"fmt"
	"io"
	"net/rpc"
	"net/rpc/jsonrpc"
	"sync"
	"time"

	"github.com/maxnikulin/burl/pkg/webextensions"

	"verif/core"
	"verif/drv"
)

// gated is a service whose calls finish when they are told to.
type gated struct {
	mu    sync.Mutex
	gates map[int]chan struct{}
}

func (g *gated) gate(n int) chan struct{} {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.gates[n] == nil {
		g.gates[n] = make(chan struct{})
	}
	return g.gates[n]
}

type Arg struct {
	N   int    `json:"n"`
	Pad string `json:"p"`
}

type Res struct {
	N   int
	Pad string
}

// Svc is registered by the server.
type Svc struct{ g *gated }

func (s *Svc) Work(a *Arg, r *Res) error {
	<-s.g.gate(a.N)
	if a.N%3 == 2 {
		return fmt.Errorf("failed %d", a.N)
	}
	*r = Res{a.N * 10, a.Pad}
	return nil
}

// Kinds of requests: 0 gated call, 1 unknown method, 2 wrong arguments.
type rpcCase struct {
	Kinds []int
	Order []int // completion order of the gated calls
	Eof   int   // input ends after that number of completions
	Mixed bool  // next request is sent only when one more call has completed
}

func c03ids(i int) string { return []string{`"s%d"`, `%d`, `"%d"`, `1000%d`}[i%4] }

func (x *rpcCase) run() (bad string, err error) {
	in, out := newPipe(), newPipe()
	g := &gated{gates: map[int]chan struct{}{}}
	server := rpc.NewServer()
	if err := server.RegisterName("Svc", &Svc{g}); err != nil {
		return "", err
	}
	factory := webextensions.MappedServerCodecFactory(map[string]string{"work": "Svc.Work", "other": "Svc.Work"}, jsonrpc.NewServerCodec)
	done := make(chan string, 1)
	go func() {
		done <- guard(func() string {
			server.ServeCodec(webextensions.NewServerCodecSplit(in, out, factory))
			return ""
		})
	}()
	ids := make([]string, len(x.Kinds))
	send := func(i int) {
		ids[i] = fmt.Sprintf(c03ids(i), i)
		m, p := []string{"work", "other"}[i%2], fmt.Sprintf(`[{"n":%d,"p":"p%d"}]`, i, i)
		switch x.Kinds[i] {
		case 1:
			m = "Svc.Work"
		case 2:
			p = `["text"]`
		}
		in.Write(drv.Frame([]byte(fmt.Sprintf(`{"method":"%s","params":%s,"id":%s}`, m, p, ids[i]))))
	}
	sent, ended := 0, false
	immediate := 0
	completed := 0
	frames := func(n int) bool {
		return out.Wait(func(t []byte, closed bool) bool {
			f, _ := drv.SplitFrames(t)
			return len(f) >= n || closed
		})
	}
	advance := func() {
		// what is sent before the next completion
		for sent < len(x.Kinds) {
			if x.Mixed && sent > 0 {
				// a gated call may only be completed once it has been sent
				need := false
				if completed < len(x.Order) {
					need = x.Order[completed] >= sent
				} else {
					need = true
				}
				if !need {
					break
				}
			}
			if x.Kinds[sent] != 0 {
				immediate++
			}
			send(sent)
			sent++
		}
		if !ended && completed >= x.Eof && sent == len(x.Kinds) {
			in.Finish(io.EOF)
			ended = true
		}
	}
	advance()
	for _, k := range x.Order {
		close(g.gate(k))
		completed++
		// immediate replies may come before or after
		if !frames(completed + immediate) {
			return fmt.Sprintf("no reply after completion of call %d", k), nil
		}
		advance()
	}
	in.Finish(io.EOF)
	select {
	case bad = <-done:
		if bad != "" {
			return bad, nil
		}
	case <-time.After(patience):
		return "session does not end after EOF and completion of all calls", nil
	}
	if !out.closed {
		return "output stream is not closed", nil
	}
	if out.late > 0 {
		return "data is written to the output after it has been closed", nil
	}
	fr, rest := drv.SplitFrames(out.Total())
	if len(rest) != 0 {
		return fmt.Sprintf("output is not a sequence of frames: %.200q", rest), nil
	}
	got := map[string]int{}
	var order []string
	for _, f := range fr {
		r, err := drv.ParseReply(f)
		if err != nil {
			return err.Error(), nil
		}
		id := string(r.ID)
		got[id]++
		for i := range x.Kinds {
			if ids[i] != id {
				continue
			}
			switch {
			case x.Kinds[i] != 0:
				if r.OK() {
					return fmt.Sprintf("bad request %d is answered with %s", i, f), nil
				}
			case i%3 == 2:
				if r.Error != fmt.Sprintf("failed %d", i) {
					return fmt.Sprintf("call %d is answered with %s", i, f), nil
				}
				order = append(order, id)
			default:
				if !r.OK() || drv.Canon(r.Result) != drv.Canon([]byte(fmt.Sprintf(`{"N":%d,"Pad":"p%d"}`, i*10, i))) {
					return fmt.Sprintf("call %d is answered with %s", i, f), nil
				}
				order = append(order, id)
			}
		}
	}
	for i := range x.Kinds {
		if got[ids[i]] != 1 {
			return fmt.Sprintf("request %d (id %s) has %d replies: %.900q", i, ids[i], got[ids[i]], out.Total()), nil
		}
	}
	if len(fr) != len(x.Kinds) {
		return fmt.Sprintf("%d replies to %d requests: %.900q", len(fr), len(x.Kinds), out.Total()), nil
	}
	return "", nil
}

type goCase struct {
	K     int
	Order []int
	Errs  int // bit mask of calls that fail
}

// run checks a Go client with replies in any order.
func (x *goCase) run() string {
	in, out := newPipe(), newPipe()
	cl := rpc.NewClientWithCodec(webextensions.NewClientCodecSplit(in, out, jsonrpc.NewClientCodec))
	defer cl.Close()
	var calls []*rpc.Call
	res := make([]Res, x.K)
	for i := 0; i < x.K; i++ {
		calls = append(calls, cl.Go("m", &Arg{i, "q"}, &res[i], make(chan *rpc.Call, 1)))
	}
	fr, rest := drv.SplitFrames(out.Total())
	if len(fr) != x.K || len(rest) != 0 {
		return fmt.Sprintf("requests on the wire: %.300q", out.Total())
	}
	for _, k := range x.Order {
		id, bad := requestID(fr[k], k)
		if bad != "" {
			return bad
		}
		if x.Errs>>k&1 == 1 {
			in.Write(drv.Frame([]byte(fmt.Sprintf(`{"id":%s,"result":null,"error":"err %d"}`, id, k))))
		} else {
			in.Write(drv.Frame([]byte(fmt.Sprintf(`{"id":%s,"result":{"N":%d,"Pad":"r%d"},"error":null}`, id, k+100, k))))
		}
	}
	for k, call := range calls {
		select {
		case <-call.Done:
		case <-time.After(patience):
			return fmt.Sprintf("call %d does not complete", k)
		}
		if x.Errs>>k&1 == 1 {
			if call.Error == nil || call.Error.Error() != fmt.Sprintf("err %d", k) {
				return fmt.Sprintf("call %d completed with error %v", k, call.Error)
			}
		} else if call.Error != nil || res[k] != (Res{k + 100, fmt.Sprint("r", k)}) {
			return fmt.Sprintf("call %d completed with %v %+v", k, call.Error, res[k])
		}
	}
	return ""
}

var errStream = errors.New("stream failure")

func c03(c *core.Ctx) {
	c.Rule("a server with gated handlers behind the framed codec: every order of completion, the input ending after every number of completions; a Go client with replies in every order; non-trivial: distinct cases")
	c.Assume("the completion order of handlers is forced by gates and each reply is awaited before the next completion; the preemptive interleavings inside of the library and of net/rpc are explored by the scheduler part")
	runServer := func(w *core.Worker, x rpcCase) core.Out {
		bad, err := x.run()
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint(x))
		}
		if bad != "" {
			return core.Bad("server:"+core.ShortHash(bad), "%+v: %s", x, bad)
		}
		return core.Out{Err: err}
	}
	core.Explore(c, "many", "N requests in progress, N of 5..40 and around powers of two up to 256 (thorough: 1024), kinds: all repeated patterns of 1..2, completed in 3 orders, EOF before or after, sent at once or as late as possible", func(yield func(rpcCase) bool) {
		for _, n := range manyN(core.Pick(c, 8, 10)) {
			for wd := range core.Words(3, 1, 2) {
				var open []int
				kinds := make([]int, n)
				for i := range kinds {
					if kinds[i] = wd[i%len(wd)]; kinds[i] == 0 {
						open = append(open, i)
					}
				}
				for o := 0; o < 3; o++ {
					order := append([]int{}, open...)
					for i := range order {
						switch o {
						case 1:
							order[i] = open[len(open)-1-i]
						case 2: // from the middle
							order[i] = open[(i+len(open)/2)%len(open)]
						}
					}
					if o > 0 && len(open) == 0 {
						continue
					}
					for _, x := range []rpcCase{{kinds, order, 0, false}, {kinds, order, len(open), false}, {kinds, order, len(open), true}} {
						if x.Mixed && (o > 0 || n > 200) {
							continue
						}
						if !yield(x) {
							return
						}
					}
				}
			}
		}
	}, runServer)
	core.Explore(c, "completion", "1..5 requests (gated, unknown method, wrong arguments), all completion orders of gated ones, EOF after any number of completions, requests sent at once or as late as possible", func(yield func(rpcCase) bool) {
		for n := 1; n <= core.Pick(c, 4, 5); n++ {
			for kinds := range core.Words(3, n, n) {
				var open []int
				for i, k := range kinds {
					if k == 0 {
						open = append(open, i)
					}
				}
				for p := range core.Perms(len(open)) {
					order := []int{}
					for _, i := range p {
						order = append(order, open[i])
					}
					for eof := 0; eof <= len(open); eof++ {
						for _, mixed := range []bool{false, true} {
							if !yield(rpcCase{kinds, order, eof, mixed}) {
								return
							}
						}
					}
				}
			}
		}
		// more gated calls
		for n := 5; n <= core.Pick(c, 5, 6); n++ {
			for p := range core.Perms(n) {
				for eof := 0; eof <= n; eof++ {
					if !yield(rpcCase{make([]int, n), p, eof, eof%2 == 1}) {
						return
					}
				}
			}
		}
	}, runServer)
	core.Explore(c, "client", "1..5 calls in progress, replies in every order, every subset of them being errors; and many calls in 3 orders", func(yield func(goCase) bool) {
		for n := 1; n <= core.Pick(c, 5, 6); n++ {
			for p := range core.Perms(n) {
				for e := 0; e < 1<<n; e++ {
					if n > 4 && e != 0 && e != 5 && e != 1<<n-1 {
						continue
					}
					if !yield(goCase{n, p, e}) {
						return
					}
				}
			}
		}
		for _, n := range manyN(core.Pick(c, 10, 12)) {
			for o := 0; o < 3; o++ {
				p := make([]int, n)
				for i := range p {
					p[i] = []int{i, n - 1 - i, (i + n/2) % n}[o]
				}
				for _, e := range []int{0, -1, 0x5555555555555555, 0x10101} {
					if !yield(goCase{n, p, e}) {
						return
					}
				}
			}
		}
	}, func(w *core.Worker, x goCase) core.Out {
		bad := guard(x.run)
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint("client", x))
		}
		if bad != "" {
			return core.Bad("client:"+core.ShortHash(bad), "%+v: %s", x, bad)
		}
		return core.Out{}
	})
	c.Sample(rpcCase{[]int{0, 1, 0}, []int{2, 0}, 1, true})
}
