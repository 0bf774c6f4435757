package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/rpc"
	"net/rpc/jsonrpc"
	"strings"

	"github.com/maxnikulin/burl/pkg/webextensions"

	"verif/core"
	"verif/drv"
)

// writeCase is a history of outgoing messages.
type writeCase struct {
	Client bool  `json:",omitempty"`
	Kinds  []int // see outKinds
	Limit  int   // the output breaks after that number of bytes, negative: never
	Once   int   `json:",omitempty"` // positive: a single write after that number of frames minus one fails and takes nothing
}

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errDevice }

type outKind struct {
	name string
	v    any
	err  string
	js   string // expected JSON of the value, empty if it can not be encoded
}

var outKinds = []outKind{
	{name: "small", v: map[string]any{"a": 1}, js: `{"a":1}`},
	{name: "unencodable", v: math.NaN()},
	{name: "big", v: strings.Repeat("z", 1500), js: `"` + strings.Repeat("z", 1500) + `"`},
	{name: "late unencodable", v: []any{strings.Repeat("y", 600), badJSON{}}},
	{name: "error", err: "failure \"x\"\n"},
	{name: "text", v: "Жё\u2028\x01", js: `"Жё\u2028\u0001"`},
	{name: "empty", v: []int{}, js: `[]`},
}

func (x *writeCase) expected(i int) (string, bool) {
	k := outKinds[x.Kinds[i]]
	if x.Client {
		if k.err != "" {
			k.js = `"e"`
		}
		if k.js == "" {
			return "", false
		}
		return drv.Canon([]byte(fmt.Sprintf(`{"id":%d,"method":"m.%d","params":[%s]}`, i, i, k.js))), true
	}
	if k.err != "" {
		return drv.Canon([]byte(fmt.Sprintf(`{"id":"q%d","result":null,"error":%q}`, i, k.err))), true
	}
	if k.js == "" {
		return "", false
	}
	return drv.Canon([]byte(fmt.Sprintf(`{"id":"q%d","result":%s,"error":null}`, i, k.js))), true
}

func (x *writeCase) write() (*sink, string) {
	out := &sink{limit: x.Limit}
	if x.Once > 0 {
		out.once = 1
		whole, bad := (&writeCase{Client: x.Client, Kinds: x.Kinds, Limit: -1}).write()
		if bad != "" {
			return out, bad
		}
		fr, _ := drv.SplitFrames(whole.Bytes())
		for i := 0; i < x.Once-1 && i < len(fr); i++ {
			out.once += 4 + len(fr[i])
		}
	}
	if x.Client {
		codec := webextensions.NewClientCodecSplit(&script{}, out, jsonrpc.NewClientCodec)
		for i, k := range x.Kinds {
			v := outKinds[k].v
			if outKinds[k].err != "" {
				v = "e"
			}
			codec.WriteRequest(&rpc.Request{ServiceMethod: fmt.Sprint("m.", i), Seq: uint64(i)}, v)
		}
		codec.Close()
		return out, ""
	}
	var in []byte
	for i := range x.Kinds {
		in = append(in, drv.Frame([]byte(fmt.Sprintf(`{"id":"q%d","method":"m.%d","params":[%d]}`, i, i, i)))...)
	}
	codec := webextensions.NewServerCodecSplit(&script{data: in}, out, jsonrpc.NewServerCodec)
	var seq []uint64
	for i := range x.Kinds {
		var r rpc.Request
		var v int
		if err := codec.ReadRequestHeader(&r); err != nil {
			return out, fmt.Sprintf("request %d: %v", i, err)
		}
		if err := codec.ReadRequestBody(&v); err != nil {
			return out, fmt.Sprintf("request %d: %v", i, err)
		}
		seq = append(seq, r.Seq)
	}
	for i, k := range x.Kinds {
		resp := &rpc.Response{Seq: seq[i], Error: outKinds[k].err}
		v := outKinds[k].v
		if resp.Error != "" {
			v = struct{}{}
		}
		codec.WriteResponse(resp, v)
	}
	codec.Close()
	return out, ""
}

func (x *writeCase) run() string {
	full := &writeCase{Client: x.Client, Kinds: x.Kinds, Limit: -1}
	if x.Once > 0 {
		out, bad := x.write()
		if bad != "" {
			return bad
		}
		// messages may be missing but not a part of a message
		frames, rest := drv.SplitFrames(out.Bytes())
		if len(rest) != 0 {
			return fmt.Sprintf("a write between messages failed once, output is not a sequence of frames: %.300q", rest)
		}
		i := 0
		for _, f := range frames {
			got := canonStrict(f)
			for ; i < len(x.Kinds); i++ {
				if want, ok := x.expected(i); ok && want == got {
					break
				}
			}
			if i == len(x.Kinds) {
				return fmt.Sprintf("a write between messages failed once, unexpected frame %.300q", f)
			}
			i++
		}
		return ""
	}
	if x.Limit >= 0 {
		whole, bad := full.write()
		if bad != "" {
			return bad
		}
		out, bad := x.write()
		if bad != "" {
			return bad
		}
		if !bytes.HasPrefix(whole.Bytes(), out.Bytes()) {
			return fmt.Sprintf("output broken at byte %d: the peer received %.600q that is not a prefix of %.600q", x.Limit, out.Bytes(), whole.Bytes())
		}
		return ""
	}
	out, bad := full.write()
	if bad != "" {
		return bad
	}
	frames, rest := drv.SplitFrames(out.Bytes())
	if len(rest) != 0 {
		return fmt.Sprintf("output is not a sequence of frames: %.300q", rest)
	}
	n := 0
	for i := range x.Kinds {
		want, ok := x.expected(i)
		if !ok {
			continue
		}
		if n >= len(frames) {
			return fmt.Sprintf("message %d (%s) is not sent", i, outKinds[x.Kinds[i]].name)
		}
		if got := canonStrict(frames[n]); got != want {
			return fmt.Sprintf("message %d (%s): frame %.300q holds %.200q instead of %.200q", i, outKinds[x.Kinds[i]].name, frames[n], got, want)
		}
		n++
	}
	if n != len(frames) {
		return fmt.Sprintf("extra frame %.300q", frames[n])
	}
	return ""
}

// canonStrict decodes exactly one JSON message.
func canonStrict(b []byte) string {
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return "not a JSON message: " + err.Error()
	}
	return drv.Canon(b)
}

func c02(c *core.Ctx) {
	c.Rule("histories of WriteResponse/WriteRequest over messages that can and can not be encoded; without a failure the output is split strictly and compared with the expected messages, with the output failing for good at byte k the received bytes must be a prefix of the undisturbed ones; non-trivial: distinct histories")
	run := func(w *core.Worker, x writeCase) core.Out {
		bad := guard(x.run)
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint(x))
		}
		if bad != "" {
			return core.Bad(fmt.Sprint("write:", x.Client, ":", core.ShortHash(bad)), "client=%v %v: %s", x.Client, x.Kinds, bad)
		}
		return core.Out{}
	}
	n := core.Pick(c, 4, 6)
	core.Explore(c, "histories", fmt.Sprintf("all histories of 1..%d messages of %d kinds, server and client side", n, len(outKinds)), func(yield func(writeCase) bool) {
		for s := range core.Words(len(outKinds), 1, n) {
			for _, cl := range []bool{false, true} {
				if !yield(writeCase{Client: cl, Kinds: s, Limit: -1}) {
					return
				}
			}
		}
	}, run)
	core.Explore(c, "many", "N messages, N of 5..40 and around powers of two up to 1024 (thorough: 65536), all repeated patterns of 1..2 (few: 3) of the kinds", func(yield func(writeCase) bool) {
		for _, n := range manyN(core.Pick(c, 10, 16)) {
			top := 2
			if n == 40 || n == 129 || n == 257 {
				top = 3
			}
			for wd := range core.Words(len(outKinds), 1, top) {
				if (n > 1100 || n > 260 && n != 1000 && !c.Thorough()) && len(wd) > 1 {
					continue
				}
				x := writeCase{Limit: -1}
				for i := 0; i < n; i++ {
					x.Kinds = append(x.Kinds, wd[i%len(wd)])
				}
				for _, x.Client = range []bool{false, true} {
					if !yield(x) {
						return
					}
				}
			}
		}
	}, run)
	m := core.Pick(c, 3, 4)
	core.Explore(c, "broken", fmt.Sprintf("all histories of 1..%d messages, the output breaking at every byte (every byte near the frame bounds and every 7th inside of large messages)", m), func(yield func(writeCase) bool) {
		for s := range core.Words(len(outKinds), 1, m) {
			for _, cl := range []bool{false, true} {
				x := writeCase{Client: cl, Kinds: s, Limit: -1}
				var whole *sink
				guard(func() string { whole, _ = x.write(); return "" })
				if whole == nil {
					continue
				}
				near := map[int]bool{}
				p := 0
				fr, _ := drv.SplitFrames(whole.Bytes())
				for _, f := range fr {
					for d := -12; d < 40; d++ {
						near[p+d] = true
					}
					p += 4 + len(f)
				}
				for k := 0; k <= whole.Len(); k++ {
					if !c.Thorough() && !near[k] && k%7 != 0 {
						continue
					}
					if !yield(writeCase{Client: cl, Kinds: s, Limit: k}) {
						return
					}
				}
			}
		}
	}, run)
	core.Explore(c, "once", fmt.Sprintf("all histories of 1..%d messages, the first write after every number of whole messages fails once without taking anything", n), func(yield func(writeCase) bool) {
		for s := range core.Words(len(outKinds), 1, n) {
			for _, cl := range []bool{false, true} {
				for k := 1; k <= len(s); k++ {
					if !yield(writeCase{Client: cl, Kinds: s, Limit: -1, Once: k}) {
						return
					}
				}
			}
		}
	}, run)
	// total returns a case whose first frame has a body of exactly n bytes
	total := func(n int, server bool) (sizeCase, bool) {
		x := sizeCase{Server: server}
		x.N = n - x.overhead()
		return x, x.N >= 0
	}
	core.Explore(c, "sizes", "two messages of the client or of the server, the first with a text of every size up to a bound, and with frames of exactly m*2^p-1, m*2^p, m*2^p+1 bytes, p of 9..20, m of 1..8 and 15, 16", func(yield func(sizeCase) bool) {
		for _, server := range []bool{false, true} {
			for n := 0; n <= core.Pick(c, 1500, 6000); n++ {
				if !yield(sizeCase{n, server}) {
					return
				}
			}
			for p := 9; p <= 20; p++ {
				for _, m := range []int{1, 2, 3, 4, 5, 6, 7, 8, 15, 16} {
					for d := -2; d <= 2; d++ {
						if m > 4 && p > 16 && (d != 0 || core.Pick(c, 1, 0) > 0 && m != 8) {
							continue
						}
						for h := 0; h < 2; h++ {
							// the frame with or without its length
							if x, ok := total(m<<p+d-4*h, server); ok && !yield(x) {
								return
							}
						}
					}
				}
			}
		}
	}, func(w *core.Worker, x sizeCase) core.Out {
		bad := guard(func() string {
			text := strings.Repeat("s", x.N)
			out, err := x.write(text, "t")
			if err != nil {
				return err.Error()
			}
			frames, rest := drv.SplitFrames(out)
			if len(frames) != 2 || len(rest) != 0 {
				return fmt.Sprintf("%d frames, rest %.100q", len(frames), rest)
			}
			for i, t := range []string{text, "t"} {
				want := fmt.Sprintf(`{"id":%d,"method":"m","params":["%s"]}`, i, t)
				if x.Server {
					want = fmt.Sprintf(`{"id":%d,"result":"%s","error":null}`, i, t)
				}
				if canonStrict(frames[i]) != drv.Canon([]byte(want)) {
					return fmt.Sprintf("frame %d: %.100q...", i, frames[i])
				}
			}
			return ""
		})
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprint("size", x))
		}
		if bad != "" {
			return core.Bad("size", "%+v: %s", x, bad)
		}
		return core.Out{}
	})
	c.Sample(writeCase{Kinds: []int{1, 0}, Limit: -1})
}

type sizeCase struct {
	N      int
	Server bool
}

// write lets a codec write messages with texts, returned is what was written.
func (x sizeCase) write(texts ...string) ([]byte, error) {
	out := &sink{limit: -1}
	if !x.Server {
		codec := webextensions.NewClientCodecSplit(&script{}, out, jsonrpc.NewClientCodec)
		for i, t := range texts {
			if err := codec.WriteRequest(&rpc.Request{ServiceMethod: "m", Seq: uint64(i)}, t); err != nil {
				return nil, err
			}
		}
		return out.Bytes(), nil
	}
	var in []byte
	for i := range texts {
		in = append(in, drv.Frame([]byte(fmt.Sprintf(`{"id":%d,"method":"m","params":[0]}`, i)))...)
	}
	codec := webextensions.NewServerCodecSplit(&script{data: in}, out, jsonrpc.NewServerCodec)
	for _, t := range texts {
		var r rpc.Request
		var v int
		if err := codec.ReadRequestHeader(&r); err != nil {
			return nil, err
		}
		if err := codec.ReadRequestBody(&v); err != nil {
			return nil, err
		}
		if err := codec.WriteResponse(&rpc.Response{ServiceMethod: r.ServiceMethod, Seq: r.Seq}, t); err != nil {
			return nil, err
		}
	}
	return out.Bytes(), nil
}

// overhead is the size of a message body with an empty text.
func (x sizeCase) overhead() (n int) {
	defer func() { recover() }()
	out, err := x.write("")
	if frames, _ := drv.SplitFrames(out); err == nil && len(frames) == 1 {
		n = len(frames[0])
	}
	return
}
