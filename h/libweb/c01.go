package main

import (
	"encoding/json"
	"fmt"
	"io"
	"iter"
	"net/rpc"
	"net/rpc/jsonrpc"
	"strings"

	"github.com/maxnikulin/burl/pkg/webextensions"

	"verif/core"
	"verif/drv"
)

// readCase is a stream of messages and the way it is delivered.
type readCase struct {
	Client bool   `json:",omitempty"`
	Pads   []int  // length of the padding string of each message
	WsL    string `json:",omitempty"` // whitespace before and after every message
	WsT    string `json:",omitempty"`
	Uni    bool   `json:",omitempty"`
	Cuts   []int  `json:",omitempty"`
	Chunk  int    `json:",omitempty"`
	WithE  bool   `json:",omitempty"`
	Zero   bool   `json:",omitempty"`
}

func pad(n int, uni bool) string {
	if uni {
		return strings.Repeat("Ж", n/2) + strings.Repeat("x", n%2)
	}
	return strings.Repeat("abcdefghij", n/10+1)[:n]
}

func (x *readCase) body(i int) []byte {
	p := pad(x.Pads[i], x.Uni)
	if x.Client {
		if i%2 == 1 {
			return []byte(fmt.Sprintf(`{"id":%d,"result":null,"error":%q}`, i, "e"+p))
		}
		return []byte(fmt.Sprintf(`{"id":%d,"result":{"n":%d,"p":"%s"},"error":null}`, i, i, p))
	}
	return []byte(fmt.Sprintf(`{"id":"q%d","method":"m.%d","params":[{"n":%d,"p":"%s"}]}`, i, i, i, p))
}

func (x *readCase) stream() (data []byte, ends []int) {
	for i := range x.Pads {
		b := append([]byte(x.WsL), x.body(i)...)
		b = append(b, x.WsT...)
		data = append(data, drv.Frame(b)...)
		ends = append(ends, len(data))
	}
	return
}

type payload struct {
	N int    `json:"n"`
	P string `json:"p"`
}

func (x *readCase) run() string {
	data, _ := x.stream()
	rd := &script{data: data, cuts: x.Cuts, chunk: x.Chunk, withE: x.WithE, zero: x.Zero}
	out := &sink{limit: -1}
	if x.Client {
		codec := webextensions.NewClientCodecSplit(rd, out, jsonrpc.NewClientCodec)
		for i := range x.Pads {
			if err := codec.WriteRequest(&rpc.Request{ServiceMethod: fmt.Sprint("m.", i), Seq: uint64(i)}, i); err != nil {
				return fmt.Sprintf("WriteRequest: %v", err)
			}
		}
		for i := range x.Pads {
			var r rpc.Response
			if err := codec.ReadResponseHeader(&r); err != nil {
				return fmt.Sprintf("reply %d of %d: header error %v", i, len(x.Pads), err)
			}
			if r.Seq != uint64(i) || r.ServiceMethod != fmt.Sprint("m.", i) {
				return fmt.Sprintf("reply %d: got %+v", i, r)
			}
			p := pad(x.Pads[i], x.Uni)
			if i%2 == 1 {
				if r.Error != "e"+p {
					return fmt.Sprintf("reply %d: error text %.100q", i, r.Error)
				}
				if err := codec.ReadResponseBody(nil); err != nil {
					return fmt.Sprintf("reply %d: body: %v", i, err)
				}
				continue
			}
			var v payload
			if r.Error != "" {
				return fmt.Sprintf("reply %d: unexpected error %.100q", i, r.Error)
			}
			if err := codec.ReadResponseBody(&v); err != nil {
				return fmt.Sprintf("reply %d: body: %v", i, err)
			}
			if v.N != i || v.P != p {
				return fmt.Sprintf("reply %d: decoded %d %.100q", i, v.N, v.P)
			}
		}
		var r rpc.Response
		if err := codec.ReadResponseHeader(&r); err != io.EOF {
			return fmt.Sprintf("after the last reply: %v instead of EOF", err)
		}
		return ""
	}
	codec := webextensions.NewServerCodecSplit(rd, out, jsonrpc.NewServerCodec)
	var seq []uint64
	for i := range x.Pads {
		var r rpc.Request
		if err := codec.ReadRequestHeader(&r); err != nil {
			return fmt.Sprintf("request %d of %d: header error %v", i, len(x.Pads), err)
		}
		if r.ServiceMethod != fmt.Sprint("m.", i) {
			return fmt.Sprintf("request %d: got %+v", i, r)
		}
		var v payload
		if err := codec.ReadRequestBody(&v); err != nil {
			return fmt.Sprintf("request %d: body: %v", i, err)
		}
		if v.N != i || v.P != pad(x.Pads[i], x.Uni) {
			return fmt.Sprintf("request %d: decoded %d %.100q", i, v.N, v.P)
		}
		seq = append(seq, r.Seq)
	}
	var r rpc.Request
	if err := codec.ReadRequestHeader(&r); err != io.EOF {
		return fmt.Sprintf("after the last request: %v instead of EOF", err)
	}
	for i, s := range seq {
		if err := codec.WriteResponse(&rpc.Response{Seq: s}, i); err != nil {
			return fmt.Sprintf("WriteResponse: %v", err)
		}
	}
	frames, rest := drv.SplitFrames(out.Bytes())
	if len(frames) != len(seq) || len(rest) != 0 {
		return fmt.Sprintf("replies are %.300q", out.Bytes())
	}
	for i, f := range frames {
		rep, err := drv.ParseReply(f)
		if err != nil {
			return err.Error()
		}
		if string(rep.ID) != fmt.Sprintf("%q", fmt.Sprint("q", i)) || string(rep.Result) != fmt.Sprint(i) {
			return fmt.Sprintf("reply %d is %s", i, f)
		}
	}
	return ""
}

func c01(c *core.Ctx) {
	c.Rule("the codec returned by NewServerCodecSplit/NewClientCodecSplit over a scripted reader; every case is one (message sequence, delivery) pair and the decoded messages, their ids and the clean end are compared with what was framed; non-trivial: distinct cases")
	run := func(w *core.Worker, x readCase) core.Out {
		bad := guard(x.run)
		if c.ReplayCase == nil {
			js, _ := json.Marshal(x)
			c.Distinct(string(js))
		}
		if bad != "" {
			side := "server"
			if x.Client {
				side = "client"
			}
			return core.Bad(side+":"+core.ShortHash(bad), "%s codec: %s", side, bad)
		}
		return core.Out{}
	}
	both := func(s iter.Seq[readCase]) iter.Seq[readCase] {
		return func(yield func(readCase) bool) {
			for x := range s {
				for _, cl := range []bool{false, true} {
					x.Client = cl
					if !yield(x) {
						return
					}
				}
			}
		}
	}
	flags := [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}}

	core.Explore(c, "cuts2", "streams of 2 messages: every single cut and every pair of cuts, with and without whitespace, data with EOF, empty reads", both(func(yield func(readCase) bool) {
		for _, ws := range [][2]string{{"", ""}, {" ", "\n"}, {"", " \t\r\n"}, {"\n\n", ""}} {
			x := readCase{Pads: []int{3, 0}, WsL: ws[0], WsT: ws[1]}
			data, _ := x.stream()
			for i := 0; i < len(data); i++ {
				for j := i; j < len(data); j++ {
					for _, f := range flags {
						y := x
						y.WithE, y.Zero = f[0], f[1]
						if i > 0 {
							y.Cuts = append(y.Cuts, i)
						}
						if j > i {
							y.Cuts = append(y.Cuts, j)
						}
						if !yield(y) {
							return
						}
					}
				}
			}
		}
	}), run)

	core.Explore(c, "subsets", "3 messages, every subset of the cut positions inside and around the length fields of messages 2 and 3", both(func(yield func(readCase) bool) {
		for _, ws := range [][2]string{{"", ""}, {"", "\n"}, {"", " \n "}} {
			x := readCase{Pads: []int{0, 7, 0}, WsT: ws[1]}
			_, ends := x.stream()
			var at []int
			for _, e := range ends[:2] {
				for d := -core.Pick(c, 2, 3); d <= core.Pick(c, 4, 6); d++ {
					at = append(at, e+d)
				}
			}
			for s := range core.Subsets(len(at)) {
				y := x
				for _, k := range s {
					y.Cuts = append(y.Cuts, at[k])
				}
				y.WithE = len(s)%2 == 1
				if !yield(y) {
					return
				}
			}
		}
	}), run)

	core.Explore(c, "chunks", "sequences of 1..4 messages of 4 sizes, reads limited to k bytes for every k up to the stream length or 300", both(func(yield func(readCase) bool) {
		sizes := []int{0, 1, 60, 700}
		for ws := range core.Words(len(sizes), 1, 4) {
			x := readCase{}
			for _, k := range ws {
				x.Pads = append(x.Pads, sizes[k])
			}
			data, _ := x.stream()
			for k := 1; k <= len(data) && k <= 300; k++ {
				if !c.Thorough() && len(ws) == 4 && k > 70 && k%3 != 0 {
					continue
				}
				x.Chunk = k
				x.WithE, x.Zero = k%2 == 0, k%3 == 0
				x.Uni = k%5 == 0
				if x.Uni {
					x.WsT = "\n"
				} else {
					x.WsT = ""
				}
				if !yield(x) {
					return
				}
			}
		}
	}), run)

	core.Explore(c, "lengths", "two messages, the first of every body length, followed by 0..3 whitespace characters, delivered whole, by 1, by 64 and by 512 bytes", both(func(yield func(readCase) bool) {
		top := core.Pick(c, 2100, 9000)
		for n := 0; n <= top; n++ {
			for _, ws := range []string{"", "\n", "\r\n", " \t\n"} {
				for _, k := range []int{0, 1, 64, 512} {
					if k == 1 && n > 600 && n%16 != 0 {
						continue
					}
					if !yield(readCase{Pads: []int{n, 2}, WsT: ws, Chunk: k, Uni: n%2 == 1}) {
						return
					}
				}
			}
		}
	}), run)

	core.Explore(c, "space", "one or two messages with every whitespace string up to 3 characters before and after each", both(func(yield func(readCase) bool) {
		ws := []string{}
		for s := range core.Words(4, 0, 3) {
			t := ""
			for _, k := range s {
				t += string(" \t\r\n"[k])
			}
			ws = append(ws, t)
		}
		for _, l := range ws {
			for _, t := range ws {
				for n := 1; n <= 2; n++ {
					for _, k := range []int{0, 1, 5} {
						if !yield(readCase{Pads: []int{0, 30}[:n], WsL: l, WsT: t, Chunk: k}) {
							return
						}
					}
				}
			}
		}
		// more whitespace than any buffer
		for _, n := range []int{63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 70000} {
			for _, k := range []int{0, 1, 64, 1000} {
				s := strings.Repeat(" ", n)
				for _, x := range []readCase{{WsL: s}, {WsT: s}, {WsL: s, WsT: s}} {
					x.Pads, x.Chunk = []int{5, 0, 3}, k
					if !yield(x) {
						return
					}
				}
			}
		}
	}), run)

	core.Explore(c, "large", "large messages around powers of two", both(func(yield func(readCase) bool) {
		for _, n := range []int{4096, 16384, 65536, 1 << 17, 1 << 20} {
			for d := -70; d <= 10; d += core.Pick(c, 5, 1) {
				for _, k := range []int{0, 4096, 65536} {
					if !yield(readCase{Pads: []int{n + d, 0, 1}, Chunk: k, WsT: []string{"", "\n"}[(d & 1)]}) {
						return
					}
				}
			}
		}
	}), run)
	core.Explore(c, "many", "N messages in one session, N of 5..40 and around powers of two up to 1024 (thorough: 65536), sizes: all repeated patterns of 1..2 of 4 sizes", both(func(yield func(readCase) bool) {
		sizes := []int{0, 9, 60, 700}
		for _, n := range manyN(core.Pick(c, 10, 16)) {
			for wd := range core.Words(len(sizes), 1, 2) {
				if n > 1100 && len(wd) > 1 {
					continue
				}
				x := readCase{WsT: []string{"", "\n"}[n&1]}
				for i := 0; i < n; i++ {
					x.Pads = append(x.Pads, sizes[wd[i%len(wd)]])
				}
				for _, k := range []int{0, 1, 64, 4096} {
					if n > 1100 && k == 1 {
						continue
					}
					x.Chunk = k
					if !yield(x) {
						return
					}
				}
			}
		}
	}), run)
	huge(c)
	c.Sample(readCase{Pads: []int{3, 0}, WsT: "\n", Cuts: []int{4, 50}})
}

// manyN returns counts from 5 to 40 and around powers of two up to 2^top.
func manyN(top int) (l []int) {
	for n := 5; n <= 40; n++ {
		l = append(l, n)
	}
	for k := 6; k <= top; k++ {
		l = append(l, 1<<k-1, 1<<k, 1<<k+1)
		if k == 6 {
			l = append(l, 99, 100, 101)
		}
		if k == 9 {
			l = append(l, 999, 1000, 1001)
		}
	}
	return
}
