package gv

import (
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"strings"
	"time"
)

// Go code that stands for library functions during verification (the engine calls LibX instead of them)

func LibIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func LibLastIndex(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func LibIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LibIndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LibLastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LibCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

// LibSplitHostPort is net.SplitHostPort
func LibSplitHostPort(hp string) (string, string, error) {
	i := LibLastIndexByteString(hp, ':')
	if i < 0 {
		return "", "", errors.New("missing port in address")
	}
	port := hp[i+1:]
	var host string
	if len(hp) > 0 && hp[0] == '[' {
		e := LibIndexByteString(hp, ']')
		if e < 0 || e+1 != i {
			return "", "", errors.New("address is not host:port")
		}
		host = hp[1:e]
		if LibIndexByteString(host, '[') >= 0 {
			return "", "", errors.New("unexpected '['")
		}
	} else {
		host = hp[:i]
		if LibIndexByteString(host, ':') >= 0 {
			return "", "", errors.New("too many colons in address")
		}
		if LibIndexByteString(host, '[') >= 0 || LibIndexByteString(host, ']') >= 0 {
			return "", "", errors.New("unexpected bracket")
		}
	}
	if LibIndexByteString(port, ':') >= 0 || LibIndexByteString(port, '[') >= 0 || LibIndexByteString(port, ']') >= 0 {
		return "", "", errors.New("unexpected character in port")
	}
	return host, port, nil
}

// LibJoinHostPort is net.JoinHostPort
func LibJoinHostPort(host, port string) string {
	if strings.LastIndexAny(host, ":") >= 0 {
		return "[" + host + "]:" + port
	}
	return host + ":" + port
}

// OnDial and OnListen stand for the network
var OnDial func(addr string) (net.Conn, error)
var OnListen func(addr string) (net.Listener, error)

func LibDial(network, addr string) (net.Conn, error) {
	if OnDial == nil {
		return nil, errors.New("no network")
	}
	return OnDial(addr)
}

func LibListen(network, addr string) (net.Listener, error) {
	if OnListen == nil {
		return nil, errors.New("no network")
	}
	return OnListen(addr)
}

type libCtx struct {
	parent context.Context
	ch     chan struct{}
	err    error
	until  time.Time
	timed  bool
}

func (c *libCtx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.until, true
	}
	return c.parent.Deadline()
}
func (c *libCtx) Done() <-chan struct{}           { return c.ch }
func (c *libCtx) Value(k interface{}) interface{} { return c.parent.Value(k) }
func (c *libCtx) Err() error                      { return c.err }
func (c *libCtx) end(e error) {
	if c.err == nil {
		c.err = e
		close(c.ch)
	}
}

func LibWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &libCtx{parent: parent, ch: make(chan struct{})}
	if e := parent.Err(); e != nil {
		c.end(e)
	} else if parent.Done() != nil {
		go func() {
			select {
			case <-parent.Done():
				c.end(parent.Err())
			case <-c.ch:
			}
		}()
	}
	return c, func() { c.end(context.Canceled) }
}

func LibWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	c := &libCtx{parent: parent, ch: make(chan struct{}), timed: true}
	if e := parent.Err(); e != nil {
		c.end(e)
	} else if d <= 0 {
		c.end(context.DeadlineExceeded)
	} else {
		t := time.After(d)
		go func() {
			select {
			case <-parent.Done():
				c.end(parent.Err())
			case <-t:
				c.end(context.DeadlineExceeded)
			case <-c.ch:
			}
		}()
	}
	return c, func() { c.end(context.Canceled) }
}

// TLSSession is what stands for the state of a tls.Conn: its handshake is scripted by the specification, and
// its records carry the plain text behind a header that nothing else uses
type TLSSession struct {
	Raw    net.Conn
	Config *tls.Config
	Server bool
	Tried  int
	Done   bool
	in     []byte
	key    *tls.Conn
}

// TLSHandshake is the handshake of the sessions
var TLSHandshake func(s *TLSSession) error

// TLSSessions are the sessions made so far
var TLSSessions []*TLSSession

func libTLS(raw net.Conn, c *tls.Config, server bool) *tls.Conn {
	p := new(tls.Conn)
	TLSSessions = append(TLSSessions, &TLSSession{Raw: raw, Config: c, Server: server, key: p})
	return p
}

func tlsOf(p *tls.Conn) *TLSSession {
	for _, s := range TLSSessions {
		if s.key == p {
			return s
		}
	}
	panic("not a connection of the specification")
}

func LibTLSClient(raw net.Conn, c *tls.Config) *tls.Conn { return libTLS(raw, c, false) }
func LibTLSServer(raw net.Conn, c *tls.Config) *tls.Conn { return libTLS(raw, c, true) }

func LibTLSHandshake(p *tls.Conn) error {
	s := tlsOf(p)
	if s.Done {
		return nil
	}
	s.Tried++
	if err := TLSHandshake(s); err != nil {
		return err
	}
	s.Done = true
	return nil
}

func LibTLSHandshakeContext(p *tls.Conn, ctx context.Context) error { return LibTLSHandshake(p) }

// TLSRecord is a record that carries b
func TLSRecord(b []byte) []byte {
	n := len(b)
	return append([]byte{23, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

func LibTLSWrite(p *tls.Conn, b []byte) (int, error) {
	if err := LibTLSHandshake(p); err != nil {
		return 0, err
	}
	if _, err := tlsOf(p).Raw.Write(TLSRecord(b)); err != nil {
		return 0, err
	}
	return len(b), nil
}

func LibTLSRead(p *tls.Conn, b []byte) (int, error) {
	if err := LibTLSHandshake(p); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	s := tlsOf(p)
	if len(s.in) == 0 {
		h := make([]byte, 5)
		if _, err := io.ReadFull(s.Raw, h); err != nil {
			return 0, err
		}
		if h[0] != 23 {
			return 0, errors.New("not a record")
		}
		d := make([]byte, int(h[1])<<24|int(h[2])<<16|int(h[3])<<8|int(h[4]))
		if _, err := io.ReadFull(s.Raw, d); err != nil {
			return 0, err
		}
		s.in = d
	}
	n := copy(b, s.in)
	s.in = s.in[n:]
	return n, nil
}

func LibTLSClose(p *tls.Conn) error                    { return tlsOf(p).Raw.Close() }
func LibTLSLocalAddr(p *tls.Conn) net.Addr             { return tlsOf(p).Raw.LocalAddr() }
func LibTLSRemoteAddr(p *tls.Conn) net.Addr            { return tlsOf(p).Raw.RemoteAddr() }
func LibTLSSetDeadline(p *tls.Conn, t time.Time) error { return tlsOf(p).Raw.SetDeadline(t) }
func LibTLSNetConn(p *tls.Conn) net.Conn               { return tlsOf(p).Raw }
