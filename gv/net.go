package gv

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// ErrInjected is the failure of a connection that the specification injects
var ErrInjected = errors.New("injected failure")

// Stream is a byte stream that may be delivered in pieces of any size
type Stream struct {
	Data []byte
	Pos  int
	Fail error // after the data, instead of io.EOF
}

// Rest is what has not been read
func (s *Stream) Rest() []byte { return s.Data[s.Pos:] }

func (s *Stream) end() error {
	if s.Fail != nil {
		return s.Fail
	}
	return io.EOF
}

// Read delivers between one byte and everything that fits
func (s *Stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.Pos >= len(s.Data) {
		return 0, s.end()
	}
	n := len(p)
	if n > len(s.Data)-s.Pos {
		n = len(s.Data) - s.Pos
	}
	if Bool("split the stream here") {
		k := Piece("piece of the stream", n)
		n = k
	}
	copy(p[:n], s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	return n, nil
}

// Piece is an int in [1,n]
func Piece(nm string, n int) int {
	k := int(U32(nm))
	if k < 1 || k > n {
		k = 1
	}
	return k
}

// GvReadFull is io.ReadFull on this stream: its result does not depend on the pieces
func (s *Stream) GvReadFull(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	av := len(s.Data) - s.Pos
	if len(p) <= av {
		copy(p, s.Data[s.Pos:s.Pos+len(p)])
		s.Pos += len(p)
		return len(p), nil
	}
	if av == 0 {
		return 0, s.end()
	}
	copy(p[:av], s.Data[s.Pos:])
	s.Pos += av
	if s.Fail != nil {
		return av, s.Fail
	}
	return av, io.ErrUnexpectedEOF
}

// GvReadAll is io.ReadAll on this stream
func (s *Stream) GvReadAll() ([]byte, error) {
	b := s.Data[s.Pos:]
	s.Pos = len(s.Data)
	return b, s.Fail
}

// Addr is a network address with fixed text
type Addr struct{ S string }

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return a.S }

// Conn is a connection whose peer is the specification
type Conn struct {
	mu sync.Mutex
	// what the peer sent so far, and how much of it has been read
	in    []byte
	pos   int
	ended bool
	more  chan []byte
	done  chan struct{}

	Out      [][]byte // one entry per Write call
	FailFrom int      // writes from this number on fail (-1: never)
	Short    bool     // a failing write takes part of the data
	OnWrite  func(n int, b []byte)
	Closed   int
	Whole    bool // reads deliver everything there is (the result of any way to cut the stream is decided elsewhere)
	Local    string
	Remote   string
}

// NewConn is an open connection that has received data
func NewConn(data []byte) *Conn {
	return &Conn{in: data, more: make(chan []byte, 16), done: make(chan struct{}), FailFrom: -1, Local: "10.0.0.1:80", Remote: "10.0.0.2:4000"}
}

// Feed makes the peer send more
func (c *Conn) Feed(b []byte) { c.more <- b }

// End makes the peer close its side after what it sent
func (c *Conn) End() { close(c.more) }

// Unread is what the peer sent and nobody read
func (c *Conn) Unread() []byte { return c.in[c.pos:] }

// wait until there is something to read
func (c *Conn) wait() error {
	for c.pos == len(c.in) {
		if c.Closed > 0 {
			return net.ErrClosed
		}
		if c.ended {
			return io.EOF
		}
		select {
		case b, ok := <-c.more:
			if !ok {
				c.ended = true
			} else {
				c.in = append(append([]byte{}, c.in[c.pos:]...), b...)
				c.pos = 0
			}
		case <-c.done:
			return net.ErrClosed
		}
	}
	return nil
}

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if err := c.wait(); err != nil {
		return 0, err
	}
	n := len(p)
	if n > len(c.in)-c.pos {
		n = len(c.in) - c.pos
	}
	if !c.Whole && Bool("split the stream here") {
		n = Piece("piece of the stream", n)
	}
	copy(p[:n], c.in[c.pos:c.pos+n])
	c.pos += n
	return n, nil
}

// GvReadFull is io.ReadFull on this connection
func (c *Conn) GvReadFull(p []byte) (int, error) {
	got := 0
	for got < len(p) {
		if err := c.wait(); err != nil {
			if err == io.EOF && got > 0 {
				err = io.ErrUnexpectedEOF
			}
			return got, err
		}
		n := len(p) - got
		if n > len(c.in)-c.pos {
			n = len(c.in) - c.pos
		}
		copy(p[got:got+n], c.in[c.pos:c.pos+n])
		c.pos += n
		got += n
	}
	return got, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	var n int
	var err error
	Eval(func() {
		c.mu.Lock()
		n, err = c.write(p)
		c.mu.Unlock()
	})
	if err == nil && c.OnWrite != nil {
		c.OnWrite(n, p)
		n = len(p)
	}
	return n, err
}

func (c *Conn) write(p []byte) (int, error) {
	if c.Closed > 0 {
		return 0, net.ErrClosed
	}
	if c.FailFrom >= 0 && len(c.Out) >= c.FailFrom {
		return 0, ErrInjected
	}
	c.Out = append(c.Out, append([]byte{}, p...))
	return len(p), nil
}

// Writes is a snapshot of the writes
func (c *Conn) Writes() [][]byte {
	var o [][]byte
	Eval(func() {
		c.mu.Lock()
		o = c.Out
		c.mu.Unlock()
	})
	return o
}

// Wire is everything written
func (c *Conn) Wire() []byte {
	var o []byte
	for _, b := range c.Writes() {
		o = append(o, b...)
	}
	return o
}

func (c *Conn) Close() error {
	var k int
	Eval(func() {
		c.mu.Lock()
		c.Closed++
		k = c.Closed
		c.mu.Unlock()
	})
	if k > 1 {
		return net.ErrClosed
	}
	close(c.done)
	return nil
}

func (c *Conn) LocalAddr() net.Addr                { return Addr{c.Local} }
func (c *Conn) RemoteAddr() net.Addr               { return Addr{c.Remote} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// NetError is a network error
type NetError struct{ Temp bool }

func (e *NetError) Error() string   { return "network error" }
func (e *NetError) Timeout() bool   { return false }
func (e *NetError) Temporary() bool { return e.Temp }

// Listener hands out what the specification queues
type Listener struct {
	q      chan accepted
	done   chan struct{}
	mu     sync.Mutex
	Closed int
	Calls  int   // Accept calls
	After  error // once the queue is empty, instead of waiting
	Limit  int   // more Accept calls than this mean the caller retries forever
	Spins  bool
	Local  string
}

type accepted struct {
	c net.Conn
	e error
}

func NewListener() *Listener {
	return &Listener{q: make(chan accepted, 16), done: make(chan struct{}), Limit: 12, Local: "10.0.0.1:80"}
}

func (l *Listener) Queue(c net.Conn, e error) { l.q <- accepted{c, e} }

func (l *Listener) Accept() (net.Conn, error) {
	l.Calls++
	if l.Calls > l.Limit {
		l.Spins = true
		select {} // stop the caller here
	}
	if l.Closed > 0 {
		return nil, net.ErrClosed
	}
	select {
	case a := <-l.q:
		return a.c, a.e
	default:
	}
	if l.After != nil {
		return nil, l.After
	}
	select {
	case a := <-l.q:
		return a.c, a.e
	case <-l.done:
		return nil, net.ErrClosed
	}
}

func (l *Listener) Close() error {
	l.Closed++
	if l.Closed > 1 {
		return net.ErrClosed
	}
	close(l.done)
	return nil
}

func (l *Listener) Addr() net.Addr { return Addr{l.Local} }

// Ctx is a context the specification ends
type Ctx struct {
	ch  chan struct{}
	err error
}

func NewCtx() *Ctx { return &Ctx{ch: make(chan struct{})} }

func (c *Ctx) Deadline() (time.Time, bool)     { return time.Time{}, false }
func (c *Ctx) Done() <-chan struct{}           { return c.ch }
func (c *Ctx) Value(k interface{}) interface{} { return nil }
func (c *Ctx) Err() error                      { return c.err }
func (c *Ctx) Cancel() {
	if c.err == nil {
		c.err = context.Canceled
		close(c.ch)
	}
}
