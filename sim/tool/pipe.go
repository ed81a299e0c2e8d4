package tool

import (
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// stream is one direction of a connection. Like a socket it takes data without waiting for the
// reader.
type stream struct {
	mu     sync.Mutex
	buf    []byte
	closed bool
	wake   chan struct{}
}

func newStream() *stream { return &stream{wake: make(chan struct{}, 1)} }

func (s *stream) signal() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *stream) write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return 0, io.ErrClosedPipe
	}
	s.buf = append(s.buf, b...)
	s.signal()
	return len(b), nil
}

func (s *stream) close() {
	s.mu.Lock()
	s.closed = true
	s.signal()
	s.mu.Unlock()
}

// take returns what is there.
func (s *stream) take(b []byte) (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := copy(b, s.buf)
	s.buf = s.buf[n:]
	if len(s.buf) > 0 || s.closed {
		s.signal()
	}
	return n, s.closed
}

type deadline struct {
	mu    sync.Mutex
	timer *time.Timer
	over  chan struct{}
}

func (d *deadline) wait() <-chan struct{} {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.over
}

func (d *deadline) set(t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.timer != nil && !d.timer.Stop() {
		<-d.over
	}
	d.timer = nil
	select {
	case <-d.over:
		d.over = make(chan struct{})
	default:
	}
	if t.IsZero() {
		return
	}
	if dur := time.Until(t); dur > 0 {
		over := d.over
		d.timer = time.AfterFunc(dur, func() { close(over) })
		return
	}
	close(d.over)
}

// end is one end of a connection.
type end struct {
	in, out *stream
	dead    deadline
	once    sync.Once
	gone    chan struct{}
}

func newPipe() (*end, *end) {
	a, b := newStream(), newStream()
	mk := func(in, out *stream) *end {
		return &end{in: in, out: out, dead: deadline{over: make(chan struct{})}, gone: make(chan struct{})}
	}
	return mk(a, b), mk(b, a)
}

func (e *end) Read(b []byte) (int, error) {
	for {
		select {
		case <-e.gone:
			return 0, io.ErrClosedPipe
		case <-e.dead.wait():
			return 0, os.ErrDeadlineExceeded
		default:
		}
		if len(b) == 0 {
			return 0, nil
		}
		n, closed := e.in.take(b)
		if n > 0 {
			return n, nil
		}
		if closed {
			return 0, io.EOF
		}
		select {
		case <-e.in.wake:
		case <-e.gone:
		case <-e.dead.wait():
		}
	}
}

func (e *end) Write(b []byte) (int, error) {
	select {
	case <-e.gone:
		return 0, io.ErrClosedPipe
	default:
	}
	return e.out.write(b)
}

func (e *end) Close() error {
	e.once.Do(func() {
		close(e.gone)
		e.out.close()
		e.in.close()
	})
	return nil
}

func (e *end) LocalAddr() net.Addr                { return addr("10.0.0.2:443") }
func (e *end) RemoteAddr() net.Addr               { return addr("10.0.0.1:40000") }
func (e *end) SetDeadline(t time.Time) error      { e.dead.set(t); return nil }
func (e *end) SetReadDeadline(t time.Time) error  { e.dead.set(t); return nil }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }
