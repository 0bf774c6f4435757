// Package drv drives the real burl programs as black boxes.
package drv

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// HangLimit is only a safety net: no property is decided by a short delay.
var HangLimit = 60 * time.Second

// Frame builds a native messaging frame.
func Frame(body []byte) []byte {
	out := make([]byte, 4, 4+len(body))
	binary.NativeEndian.PutUint32(out, uint32(len(body)))
	return append(out, body...)
}

// SplitFrames parses a byte stream strictly. rest is an incomplete tail.
func SplitFrames(data []byte) (frames [][]byte, rest []byte) {
	for len(data) >= 4 {
		n := int(binary.NativeEndian.Uint32(data))
		if n > len(data)-4 {
			break
		}
		frames = append(frames, data[4:4+n])
		data = data[4+n:]
	}
	return frames, data
}

// Call is a JSON-RPC request.
type Call struct {
	ID     any
	Method string
	Params any // normally a list with one object
}

func Req(id any, method string, arg any) []byte {
	js, err := json.Marshal(map[string]any{"id": id, "method": method, "params": []any{arg}})
	if err != nil {
		panic(err)
	}
	return js
}

// Reply is a decoded JSON-RPC reply.
type Reply struct {
	ID     json.RawMessage `json:"id"`
	Result json.RawMessage `json:"result"`
	Error  any             `json:"error"`
	Fields []string        `json:"-"`
	Raw    []byte          `json:"-"`
}

func (r *Reply) OK() bool { return r.Error == nil }

// ParseReply is strict: exactly one JSON object with id, result and error.
func ParseReply(body []byte) (*Reply, error) {
	dec := json.NewDecoder(bytes.NewReader(body))
	var m map[string]json.RawMessage
	if err := dec.Decode(&m); err != nil {
		return nil, fmt.Errorf("frame is not a JSON object: %v: %.200q", err, body)
	}
	if rest := bytes.TrimSpace(body[dec.InputOffset():]); len(rest) != 0 {
		return nil, fmt.Errorf("extra data after JSON message: %.200q", rest)
	}
	r := &Reply{Raw: body}
	for _, k := range []string{"id", "result", "error"} {
		if _, ok := m[k]; !ok {
			return nil, fmt.Errorf("no %q in reply %.200q", k, body)
		}
	}
	if len(m) != 3 {
		return nil, fmt.Errorf("unexpected fields in reply %.200q", body)
	}
	r.ID = m["id"]
	r.Result = m["result"]
	if err := json.Unmarshal(m["error"], &r.Error); err != nil {
		return nil, err
	}
	if r.Error != nil && string(bytes.TrimSpace(r.Result)) != "null" {
		return nil, fmt.Errorf("both result and error in reply %.200q", body)
	}
	return r, nil
}

// Run describes one run of a program.
type Run struct {
	Path  string
	Args  []string
	Env   []string // nil: minimal environment
	Dir   string
	Stdin []byte
	Limit time.Duration
	// If set, stdin is fed by this function and not closed before it returns.
	Feed func(w io.WriteCloser, out *Stream)
	Uid  int // run as this user if non-zero
}

// Done is the result of a run.
type Done struct {
	Stdout []byte
	Stderr []byte
	Code   int // exit code, -1 if killed by a signal
	Signal syscall.Signal
	Hang   bool
	Rss    int64 // KiB
}

func (d *Done) String() string {
	return fmt.Sprintf("exit=%d signal=%v hang=%v stdout=%.400q stderr=%.600q", d.Code, d.Signal, d.Hang, d.Stdout, d.Stderr)
}

func (d *Done) Crashed() bool {
	return d.Hang || d.Signal != 0 || bytes.Contains(d.Stderr, []byte("panic: ")) ||
		bytes.Contains(d.Stderr, []byte("fatal error: ")) || bytes.Contains(d.Stderr, []byte("\ngoroutine "))
}

// Stream collects output and allows to wait for it.
type Stream struct {
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	eof  bool
}

func newStream() *Stream {
	s := &Stream{}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *Stream) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.buf = append(s.buf, p...)
	s.cond.Broadcast()
	s.mu.Unlock()
	return len(p), nil
}

// WaitFrames waits until at least n complete frames were received or the stream has ended.
func (s *Stream) WaitFrames(n int) (frames [][]byte, ok bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		frames, _ = SplitFrames(s.buf)
		if len(frames) >= n {
			return frames, true
		}
		if s.eof {
			return frames, false
		}
		s.cond.Wait()
	}
}

func (s *Stream) Bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.buf...)
}

func (s *Stream) close() {
	s.mu.Lock()
	s.eof = true
	s.cond.Broadcast()
	s.mu.Unlock()
}

var MinEnv = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8", "TMPDIR=/nonexistent"}

var hung atomic.Bool

func (r Run) Do() (*Done, error) {
	cmd := exec.Command(r.Path, r.Args...)
	cmd.Dir = r.Dir
	cmd.Env = r.Env
	if cmd.Env == nil {
		cmd.Env = MinEnv
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if r.Uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(r.Uid), Gid: uint32(r.Uid)}
	}
	out, errb := newStream(), &bytes.Buffer{}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = errb
	var stdin io.WriteCloser
	if r.Feed != nil || len(r.Stdin) > 0 {
		if stdin, err = cmd.StdinPipe(); err != nil {
			return nil, err
		}
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	limit := r.Limit
	if limit == 0 {
		limit = HangLimit
		if hung.Load() {
			// the first hang has used the whole limit, it is confirmed faster
			limit = HangLimit / 4
		}
	}
	d := &Done{}
	var hang sync.Mutex
	timer := time.AfterFunc(limit, func() {
		hang.Lock()
		d.Hang = true
		hang.Unlock()
		hung.Store(true)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	fed := make(chan struct{})
	go func() {
		defer close(fed)
		if stdin == nil {
			return
		}
		if r.Feed != nil {
			r.Feed(stdin, out)
		} else {
			stdin.Write(r.Stdin)
		}
		stdin.Close()
	}()
	io.Copy(out, stdout)
	out.close()
	err = cmd.Wait()
	timer.Stop()
	<-fed
	hang.Lock()
	defer hang.Unlock()
	d.Stdout, d.Stderr = out.Bytes(), errb.Bytes()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		return nil, err
	}
	ps := cmd.ProcessState
	ws := ps.Sys().(syscall.WaitStatus)
	d.Code = ps.ExitCode()
	if ws.Signaled() {
		d.Signal = ws.Signal()
	}
	if ru, ok := ps.SysUsage().(*syscall.Rusage); ok {
		d.Rss = ru.Maxrss
	}
	return d, nil
}

// Session sends all messages at once, closes the input and collects replies by id.
type Session struct {
	Done    *Done
	Frames  [][]byte
	Replies map[string][]*Reply // key: raw id
	Order   []string
}

func (s *Session) Get(id any) *Reply {
	js, _ := json.Marshal(id)
	if l := s.Replies[string(js)]; len(l) == 1 {
		return l[0]
	}
	return nil
}

// Check reports anything that no session may show: a crash, a hang, broken frames.
func (s *Session) Check() string {
	if s.Done.Crashed() {
		return "backend crashed or hung: " + s.Done.String()
	}
	if _, rest := SplitFrames(s.Done.Stdout); len(rest) != 0 {
		return fmt.Sprintf("output is not a sequence of frames: rest %.200q", rest)
	}
	return ""
}

func Parse(d *Done) (*Session, string) {
	s := &Session{Done: d, Replies: map[string][]*Reply{}}
	var rest []byte
	s.Frames, rest = SplitFrames(d.Stdout)
	if bad := s.Check(); bad != "" {
		return s, bad
	}
	if len(rest) != 0 {
		return s, "incomplete frame"
	}
	for _, f := range s.Frames {
		r, err := ParseReply(f)
		if err != nil {
			return s, err.Error()
		}
		id := string(r.ID)
		s.Replies[id] = append(s.Replies[id], r)
		s.Order = append(s.Order, id)
	}
	return s, ""
}

// Burst runs the backend, sends the bodies as frames without waiting for
// replies and closes the input.
func Burst(r Run, bodies ...[]byte) (*Session, string, error) {
	var in []byte
	for _, b := range bodies {
		in = append(in, Frame(b)...)
	}
	r.Stdin = in
	d, err := r.Do()
	if err != nil {
		return nil, "", err
	}
	s, bad := Parse(d)
	return s, bad, nil
}

// Lockstep sends the next request only after the reply to the previous one.
// Every body must be a request that is answered.
func Lockstep(r Run, bodies ...[]byte) (*Session, string, error) {
	r.Feed = func(w io.WriteCloser, out *Stream) {
		for i, b := range bodies {
			if _, err := w.Write(Frame(b)); err != nil {
				return
			}
			if _, ok := out.WaitFrames(i + 1); !ok {
				return
			}
		}
	}
	d, err := r.Do()
	if err != nil {
		return nil, "", err
	}
	s, bad := Parse(d)
	return s, bad, nil
}

// Canon returns canonical JSON (sorted keys) for comparison.
func Canon(raw []byte) string {
	var v any
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		return "!" + string(raw)
	}
	js, _ := json.Marshal(v)
	return string(js)
}

func WriteFile(path, content string) {
	if err := os.WriteFile(path, []byte(content), 0644); err != nil {
		panic(err)
	}
}

func Q(s string) string { return fmt.Sprintf("%.300q", s) }

func Short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func Join(a []string) string { return strings.Join(a, " | ") }

// ReplyKey makes replies comparable: the order of the URL set is not defined.
func ReplyKey(r *Reply) string {
	if r == nil {
		return "no single reply"
	}
	var v struct{ Urls []string }
	if r.OK() && json.Unmarshal(r.Result, &v) == nil && v.Urls != nil {
		sort.Strings(v.Urls)
		return fmt.Sprintf("set %q", v.Urls)
	}
	if !r.OK() {
		return fmt.Sprintf("error %v", r.Error)
	}
	return Canon(r.Result)
}
