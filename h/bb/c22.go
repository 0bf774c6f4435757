package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/core"
	"verif/drv"
)

// jsCase is a batch of event sequences for the add-on client.
type jsCase struct {
	Own bool // the client is created with its own id generator
	Seq [][]int
}

type jsEvent []any

type jsReply struct {
	val   string // result
	err   string
	falsy bool
}

var jsReplies = []jsReply{
	{val: `{"a":1}`}, {err: "boom"}, {val: `"text"`}, {val: `[]`}, {val: `true`}, {val: `-1.5`}, {val: `{}`}, {err: "0"},
	{val: `0`, falsy: true}, {val: `""`, falsy: true}, {val: `false`, falsy: true}, {val: `null`, falsy: true},
}

// Events: 0 send, 1 send with failing postMessage, 2 disconnect, 3 disconnect
// with an error, 4 foreign reply, 5 null message, 6 message without id,
// 7+n*12+k reply kind k to call n.
const jsFirst = 7

func jsEvents(seq []int) []jsEvent {
	var l []jsEvent
	for _, x := range seq {
		switch {
		case x == 0:
			l = append(l, jsEvent{"s"})
		case x == 1:
			l = append(l, jsEvent{"s", "!"})
		case x == 2:
			l = append(l, jsEvent{"d"})
		case x == 3:
			l = append(l, jsEvent{"d", "gone"})
		case x < jsFirst:
			l = append(l, jsEvent{[]string{"f", "n", "x"}[x-4]})
		default:
			n, k := (x-jsFirst)/len(jsReplies), (x-jsFirst)%len(jsReplies)
			r := jsReplies[k]
			m := map[string]any{"result": nil, "error": nil}
			if r.err != "" {
				m["error"] = r.err
			} else {
				m["result"] = json.RawMessage(r.val)
			}
			l = append(l, jsEvent{"r", n, m})
		}
	}
	return l
}

// jsModel predicts for every call the event that settles it and how.
func jsModel(seq []int) (out []string, falsy []bool, ports int) {
	type call struct {
		pending bool
		port    int
	}
	var calls []call
	alive := false
	for i, x := range seq {
		switch {
		case x < 2:
			if !alive {
				alive = true
				ports++
			}
			calls = append(calls, call{x == 0, ports})
			o := ""
			if x == 1 {
				o = fmt.Sprintf("%d err \"post failure\"", i)
			}
			out, falsy = append(out, o), append(falsy, false)
		case x == 2 || x == 3:
			if !alive {
				continue
			}
			alive = false
			for n := range calls {
				if calls[n].pending {
					calls[n].pending = false
					out[n] = fmt.Sprintf("%d err %q", i, []string{"disconnected", "gone"}[x-2])
				}
			}
		case x >= jsFirst:
			n, k := (x-jsFirst)/len(jsReplies), (x-jsFirst)%len(jsReplies)
			if alive && n < len(calls) && calls[n].pending {
				calls[n].pending = false
				r := jsReplies[k]
				if r.err != "" {
					out[n] = fmt.Sprintf("%d err %q", i, r.err)
				} else {
					out[n] = fmt.Sprintf("%d ok %s", i, r.val)
				}
				falsy[n] = r.falsy
			}
		}
	}
	return
}

func c22(c *core.Ctx) {
	c.Rule("rpc_client.js in node with a stand-in for the browser port: all event sequences up to a depth (calls, failing posts, replies of all kinds to any call, foreign and malformed messages, disconnections with and without an error and the reconnection by the next call); non-trivial: distinct sequences")
	c.Assume("a reply arrives through the current port; a disconnection of an older port is not reported twice")
	js := filepath.Join(c.Repo, "examples/webextensions_addon/rpc_client.js")
	run := func(w *core.Worker, x jsCase) core.Out {
		var in bytes.Buffer
		for _, s := range x.Seq {
			b, _ := json.Marshal(map[string]any{"e": jsEvents(s), "o": x.Own})
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command("node", filepath.Join(c.Verif, "h/js/drive.js"), js)
		cmd.Stdin = &in
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		outp, err := cmd.Output()
		lines := bytes.Split(bytes.TrimSuffix(outp, []byte("\n")), []byte("\n"))
		if err != nil || len(lines) != len(x.Seq) {
			if len(x.Seq) > 1 && stderr.Len() > 0 {
				return core.Bad("script", "the script failed: %v %s", err, drv.Short(stderr.String(), 1500))
			}
			return core.Out{Err: fmt.Errorf("node: %v, %d lines, %s", err, len(lines), stderr.String())}
		}
		known := ""
		var knownCase jsCase
		for i, line := range lines {
			var o struct {
				Calls []struct {
					Settled [][]any
					Msg     map[string]any
				}
				Bad   []string
				Ports int
			}
			if err := json.Unmarshal(line, &o); err != nil {
				return core.Out{Err: err}
			}
			want, falsy, ports := jsModel(x.Seq[i])
			ev, _ := json.Marshal(jsEvents(x.Seq[i]))
			if c.ReplayCase == nil {
				c.Count("evaluations", 1)
				c.Distinct(fmt.Sprint(x.Own, x.Seq[i]))
			}
			bad := ""
			onlyFalsy := true
			if len(o.Bad) > 0 {
				bad, onlyFalsy = strings.Join(o.Bad, "; "), false
			} else if len(o.Calls) != len(want) {
				return core.Out{Err: fmt.Errorf("%d calls instead of %d", len(o.Calls), len(want))}
			} else if o.Ports != ports {
				bad, onlyFalsy = fmt.Sprintf("%d connections instead of %d", o.Ports, ports), false
			}
			ids := map[any]bool{}
			for n, call := range o.Calls {
				got := ""
				for _, s := range call.Settled {
					v, _ := json.Marshal(s[2])
					got += fmt.Sprintf("%v %v %s", s[0], s[1], drv.Canon(v))
				}
				if call.Msg != nil {
					p, _ := json.Marshal(call.Msg["params"])
					if call.Msg["method"] != fmt.Sprint("m", n+1) || string(p) != fmt.Sprintf(`[{"arg":%d}]`, n+1) || call.Msg["id"] == nil || ids[call.Msg["id"]] {
						bad, onlyFalsy = fmt.Sprintf("request of call %d is %v", n, call.Msg), false
					}
					ids[call.Msg["id"]] = true
				}
				if got == want[n] {
					continue
				}
				bad = fmt.Sprintf("call %d: settled as %q instead of %q", n, got, want[n])
				if !falsy[n] || !strings.Contains(got, "err \"invalid RPC response") || !strings.HasPrefix(got, strings.Fields(want[n])[0]+" ") {
					onlyFalsy = false
				}
				if !onlyFalsy {
					break
				}
			}
			if bad == "" {
				continue
			}
			one := jsCase{x.Own, [][]int{x.Seq[i]}}
			if onlyFalsy {
				if known == "" {
					known, knownCase = fmt.Sprintf("%s: %s", ev, bad), one
				}
				continue
			}
			out := core.Bad("js:"+core.ShortHash(bad), "%s: %s", ev, bad)
			out.Min = one
			return out
		}
		if known != "" {
			out := core.Bad("falsy-result", "%s", known)
			out.Min = knownCase
			return out
		}
		return core.Out{}
	}
	gen := func(kinds []int, misc []int, depth, calls int) func(yield func([]int) bool) {
		return func(yield func([]int) bool) {
			var rec func(seq []int, n int) bool
			rec = func(seq []int, n int) bool {
				if len(seq) > 0 && !yield(append([]int{}, seq...)) {
					return false
				}
				if len(seq) == depth {
					return true
				}
				next := append([]int{}, misc...)
				if n < calls {
					next = append(next, 0, 1)
				}
				if n > 0 {
					for k := 0; k < n; k++ {
						for _, r := range kinds {
							next = append(next, jsFirst+k*len(jsReplies)+r)
						}
					}
				}
				for _, x := range next {
					m := n
					if x < 2 {
						m++
					}
					if !rec(append(seq, x), m) {
						return false
					}
				}
				return true
			}
			rec(nil, 0)
		}
	}
	batch := func(own bool, g func(yield func([]int) bool), size int) func(yield func(jsCase) bool) {
		return func(yield func(jsCase) bool) {
			for b := range core.Batch(g, size) {
				if !yield(jsCase{own, b}) {
					return
				}
			}
		}
	}
	d := core.Pick(c, 7, 8)
	core.Explore(c, "deep", fmt.Sprintf("all event sequences up to %d events, 3 calls, results and errors", d), batch(false, gen([]int{0, 1}, []int{2, 4}, d, 3), 4000), run)
	core.Explore(c, "wide", "all event sequences up to 5 events, 2 calls, all kinds of replies with a truthy result and all malformed messages", batch(false, gen([]int{0, 1, 2, 3, 4, 5, 6, 7}, []int{2, 3, 4, 5, 6}, core.Pick(c, 4, 5), 2), 4000), run)
	core.Explore(c, "own", "the same with an id generator of the caller", batch(true, gen([]int{0, 1}, []int{2, 3, 4}, core.Pick(c, 5, 6), 3), 4000), run)
	core.Explore(c, "falsy", "event sequences up to 4 events with the results 0, \"\", false and null", batch(false, gen([]int{0, 8, 9, 10, 11}, []int{2}, 4, 2), 1<<20), run)
	c.Sample(jsEvents([]int{0, 0, jsFirst + len(jsReplies), 2, 0}))
}
