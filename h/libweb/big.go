package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net/rpc"
	"net/rpc/jsonrpc"

	"github.com/maxnikulin/burl/pkg/webextensions"

	"verif/core"
)

// bigCase is a pair of messages, the first of which has a body of Size bytes.
type bigCase struct {
	Client bool `json:",omitempty"`
	Size   int
	Text   bool `json:",omitempty"` // a long string instead of leading blanks
}

// filler is a stream of pieces some of which are long repetitions.
type filler struct {
	parts []fill
}

type fill struct {
	s string
	n int
}

func (f *filler) Read(p []byte) (int, error) {
	k := 0
	for k < len(p) && len(f.parts) > 0 {
		t := &f.parts[0]
		if t.n == 0 {
			f.parts = f.parts[1:]
			continue
		}
		if len(t.s) == 1 {
			m := min(t.n, len(p)-k)
			q := p[k : k+m]
			for i := range q {
				q[i] = t.s[0]
			}
			t.n -= m
			k += m
			continue
		}
		m := copy(p[k:], t.s)
		k += m
		if t.s = t.s[m:]; t.s == "" {
			t.n = 0
		}
	}
	if k == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return k, nil
}

func (f *filler) Close() error { return nil }

func (x *bigCase) run() string {
	var pre, post, next string
	if x.Client {
		pre, post, next = `{"id":0,"result":{"n":7,"p":"`, `"},"error":null}`, `{"id":1,"result":{"n":8,"p":"z"},"error":null}`
	} else {
		pre, post, next = `{"id":1,"method":"m.0","params":[{"n":7,"p":"`, `"}]}`, `{"id":2,"method":"m.1","params":[{"n":8,"p":"z"}]}`
	}
	var h [8]byte
	binary.NativeEndian.PutUint32(h[:4], uint32(x.Size))
	binary.NativeEndian.PutUint32(h[4:], uint32(len(next)))
	pad := x.Size - len(pre) - len(post)
	rd := &filler{}
	if x.Text {
		rd.parts = []fill{{string(h[:4]), 1}, {pre, 1}, {"x", pad}, {post, 1}, {string(h[4:]), 1}, {next, 1}}
	} else {
		rd.parts = []fill{{string(h[:4]), 1}, {" ", pad}, {pre + post, 1}, {string(h[4:]), 1}, {next, 1}}
		pad = 0
	}
	out := &sink{limit: -1}
	check := func(i int, v *payload) string {
		n, l := 7, pad
		if i == 1 {
			n, l = 8, 1
		}
		if v.N != n || len(v.P) != l {
			return fmt.Sprintf("message %d is decoded as %d and a string of %d bytes instead of %d and %d bytes", i, v.N, len(v.P), n, l)
		}
		return ""
	}
	if x.Client {
		codec := webextensions.NewClientCodecSplit(rd, out, jsonrpc.NewClientCodec)
		for i := 0; i < 2; i++ {
			if err := codec.WriteRequest(&rpc.Request{ServiceMethod: "m", Seq: uint64(i)}, i); err != nil {
				return fmt.Sprintf("WriteRequest: %v", err)
			}
		}
		for i := 0; i < 2; i++ {
			var r rpc.Response
			var v payload
			if err := codec.ReadResponseHeader(&r); err != nil || r.Error != "" || r.Seq != uint64(i) {
				return fmt.Sprintf("reply %d: %+v, %v", i, r, err)
			}
			if err := codec.ReadResponseBody(&v); err != nil {
				return fmt.Sprintf("reply %d: body: %v", i, err)
			}
			if bad := check(i, &v); bad != "" {
				return bad
			}
		}
		return ""
	}
	codec := webextensions.NewServerCodecSplit(rd, out, jsonrpc.NewServerCodec)
	for i := 0; i < 2; i++ {
		var r rpc.Request
		var v payload
		if err := codec.ReadRequestHeader(&r); err != nil || r.ServiceMethod != fmt.Sprint("m.", i) {
			return fmt.Sprintf("request %d: %+v, %v", i, r, err)
		}
		if err := codec.ReadRequestBody(&v); err != nil {
			return fmt.Sprintf("request %d: body: %v", i, err)
		}
		if bad := check(i, &v); bad != "" {
			return bad
		}
	}
	return ""
}

// huge explores sizes up to the limit of 1 GiB.
func huge(c *core.Ctx) {
	const limit = 1 << 30
	memory := make(chan bool, 3)
	run := func(w *core.Worker, x bigCase) core.Out {
		if x.Size > 1<<27 {
			memory <- true
			defer func() { <-memory }()
		}
		bad := guard(x.run)
		if c.ReplayCase == nil {
			c.Distinct(fmt.Sprintf("%+v", x))
		}
		if bad != "" {
			return core.Bad(fmt.Sprintf("huge:%v:%v", x.Client, x.Text), "%+v: %s", x, bad)
		}
		return core.Out{}
	}
	core.Explore(c, "huge", "a message of 2^k-1, 2^k and 2^k+1 bytes, k of 16..26 (thorough: 29), a long string or leading blanks, and another message", func(yield func(bigCase) bool) {
		for k := 16; k <= core.Pick(c, 26, 29); k++ {
			for d := -1; d <= 1; d++ {
				for m := 0; m < 4; m++ {
					if k > 24 && d != 0 && !c.Thorough() {
						continue
					}
					if !yield(bigCase{m&1 == 0, 1<<k + d, m&2 == 0}) {
						return
					}
				}
			}
		}
	}, run)
	core.Explore(c, "limit", "messages of exactly 1 GiB and one byte less (leading blanks) and another message", func(yield func(bigCase) bool) {
		for _, cl := range []bool{false, true} {
			if !yield(bigCase{Client: cl, Size: limit}) {
				return
			}
			if c.Thorough() {
				_ = yield(bigCase{Client: cl, Size: limit - 1})
			}
		}
	}, run)
}
