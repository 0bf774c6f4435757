package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"sync"
	"time"
)

// patience is only a safety net against calls that never complete.
const patience = 30 * time.Second

var errDevice = errors.New("device failure")

// script is a reader that returns the data in pieces that end at the cuts.
type script struct {
	data  []byte
	cuts  []int // ascending positions at which a read ends
	chunk int   // if positive, no read returns more bytes
	withE bool  // the last piece is returned together with the final error
	zero  bool  // every second read returns no data and no error
	end   error // final error, io.EOF by default

	pos    int
	n      int
	after  int
	closed bool
}

type spinning struct{}

func (s *script) Read(p []byte) (int, error) {
	end := s.end
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.data) {
		if s.after++; s.after > 10000 {
			panic(spinning{})
		}
		return 0, end
	}
	s.n++
	if s.zero && s.n%2 == 1 {
		return 0, nil
	}
	stop := len(s.data)
	for _, c := range s.cuts {
		if c > s.pos {
			if c < stop {
				stop = c
			}
			break
		}
	}
	if s.chunk > 0 && s.pos+s.chunk < stop {
		stop = s.pos + s.chunk
	}
	k := copy(p, s.data[s.pos:stop])
	s.pos += k
	if s.withE && s.pos == len(s.data) {
		return k, end
	}
	return k, nil
}

func (s *script) Close() error { s.closed = true; return nil }

// sink is a writer that fails for good after a number of bytes.
type sink struct {
	bytes.Buffer
	limit  int // negative: never fails
	closed bool
	late   int // bytes accepted after closing
	once   int // positive: a single write after once-1 bytes fails and takes nothing
}

func (s *sink) Write(p []byte) (int, error) {
	if s.once > 0 && s.Len() == s.once-1 && len(p) > 0 {
		s.once = 0
		return 0, errDevice
	}
	if s.limit >= 0 && s.Len()+len(p) > s.limit {
		k := s.limit - s.Len()
		s.Buffer.Write(p[:k])
		return k, errDevice
	}
	return s.Buffer.Write(p)
}

func (s *sink) Close() error { s.closed = true; return nil }

// guard turns a panic of the code under test into a description.
func guard(f func() string) (bad string) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(spinning); ok {
				bad = "the codec keeps reading after the end of the stream"
				return
			}
			bad = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	return f()
}

// pipe is an unbounded in-memory pipe; writes never block.
type pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	data   []byte
	end    error
	closed bool
	total  []byte
	late   int
}

func newPipe() *pipe {
	p := &pipe{}
	p.cond = sync.NewCond(&p.mu)
	return p
}

func (p *pipe) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for len(p.data) == 0 {
		if p.closed {
			return 0, errors.New("read from a closed pipe")
		}
		if p.end != nil {
			return 0, p.end
		}
		p.cond.Wait()
	}
	n := copy(b, p.data)
	p.data = p.data[n:]
	return n, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		p.late += len(b)
		return 0, errors.New("write to a closed pipe")
	}
	p.data = append(p.data, b...)
	p.total = append(p.total, b...)
	p.cond.Broadcast()
	return len(b), nil
}

// Finish makes the reader get the error after the data.
func (p *pipe) Finish(err error) {
	p.mu.Lock()
	p.end = err
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *pipe) Close() error {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
	return nil
}

// Wait waits until the condition holds for everything ever written.
func (p *pipe) Wait(f func(total []byte, closed bool) bool) bool {
	t := time.AfterFunc(patience, func() { p.cond.Broadcast() })
	defer t.Stop()
	limit := time.Now().Add(patience)
	p.mu.Lock()
	defer p.mu.Unlock()
	for !f(p.total, p.closed) {
		if time.Now().After(limit) {
			return false
		}
		p.cond.Wait()
	}
	return true
}

func (p *pipe) Total() []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte{}, p.total...)
}
