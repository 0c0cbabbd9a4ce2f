//verif:property C21
//verif:note crypto/tls is replaced by a session whose handshake is scripted by the specification; what it is given as its connection is the real code
//verif:needs transport/C19.go
package transport

import (
	"crypto/tls"
	"io"
	"net"

	gv "github.com/tg123/phabrik/zzgv"
)

// specSecured connects over w with TLS; script runs in place of the handshake, on the connection TLS is given
func specSecured(w net.Conn, config *tls.Config, script func(raw net.Conn) error) (*Client, error) {
	gv.TLSHandshake = func(s *gv.TLSSession) error { return script(s.Raw) }
	return Connect(w, ClientConfig{Config: Config{TLS: config}})
}

func specHas(b []byte, id MessageHeaderIdType) bool {
	for len(b) >= 4 {
		if MessageHeaderIdType(int(b[0])|int(b[1])<<8) == id {
			return true
		}
		n := int(b[2]) | int(b[3])<<8
		if 4+n > len(b) {
			return false
		}
		b = b[4+n:]
	}
	return false
}

// Verif_C21_write: three writes of any bytes before the handshake is complete, any one of which fails
func Verif_C21_write() {
	w := gv.NewConn(nil)
	fail := gv.Choice("failing write", 4)
	w.FailFrom = fail
	if fail == 3 {
		w.FailFrom = -1
	}
	chunks := [][]byte{gv.Bytes("first"), gv.Bytes("second"), gv.BytesN("third", 2)}
	gv.Assume(len(chunks[0]) < 1<<24 && len(chunks[1]) < 1<<24)
	specSecured(w, &tls.Config{}, func(raw net.Conn) error {
		for i, c := range chunks {
			n, err := raw.Write(c)
			if i >= fail {
				gv.Assert(err != nil, "a failed write is reported")
				gv.Cover("failed write")
				return err
			}
			gv.Assert(err == nil && n == len(c), "a write takes everything")
			out := w.Writes()
			gv.Assert(len(out) == i+1, "each write is one frame")
			gv.Assume(len(out) == i+1)
			o := out[i]
			h, b, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: o}, frameReadConfig{})
			gv.Assert(err == nil, "the frame is well formed")
			gv.Assume(err == nil)
			gv.Assert(h.Actor == MessageActorTypeSecurityContext, "it is a security-context message")
			gv.AssertEqBytes(b, c, "whose body is the written bytes")
			hl := int(o[6]) | int(o[7])<<8
			gv.Assert(specHas(o[12:12+hl], MessageHeaderIdTypeSecurityNegotiation) == (i == 0), "only the first carries the negotiation header")
			gv.AssertEqBytes(o[12+hl:], c, "nothing else is in the frame")
			gv.Assert(o[4] == byte(securityProviderSsl), "with the SSL security mask")
		}
		gv.Cover("writes")
		return gv.ErrInjected
	})
}

func specSecurityFrame(body []byte) []byte {
	m := &Message{Body: body}
	m.Headers.Id = MessageId{Index: 60}
	m.Headers.Actor = MessageActorTypeSecurityContext
	return specInbound(m)
}

// Verif_C21_read: the bodies of any two frames, read in pieces of any size
func Verif_C21_read() {
	a, b := gv.Bytes("first body"), gv.Bytes("second body")
	gv.Assume(len(a) < 1<<24 && len(b) < 1<<24)
	gv.Assume(len(b) > 0)
	w := gv.NewConn(append(specSecurityFrame(a), specSecurityFrame(b)...))
	all := append(append([]byte{}, a...), b...)
	specSecured(w, &tls.Config{}, func(raw net.Conn) error {
		k := 1 + gv.Small("size of the first read", 1<<24)
		p := make([]byte, k)
		n, err := raw.Read(p)
		gv.Assert(err == nil && n > 0 && n <= k, "a read returns bytes")
		gv.Assume(err == nil && n > 0 && n <= k && n <= len(all))
		gv.AssertEqBytes(p[:n], all[:n], "the next bytes of the bodies")
		rest := make([]byte, len(all)-n)
		_, err = io.ReadFull(raw, rest)
		gv.Assert(err == nil, "everything is read")
		gv.Assume(err == nil)
		gv.AssertEqBytes(rest, all[n:], "in order, without loss or duplication")
		gv.Assert(len(w.Unread()) == 0, "and nothing is left")
		gv.Cover("reads")
		return gv.ErrInjected
	})
}

// Verif_C21_readfail: a frame that does not arrive as a whole, or is not a frame
func Verif_C21_readfail() {
	a := gv.BytesN("body", 3)
	f := specSecurityFrame(a)
	n := gv.Choice("bytes that arrive", len(f))
	w := gv.NewConn(f[:n])
	w.End()
	specSecured(w, &tls.Config{}, func(raw net.Conn) error {
		p := make([]byte, 8)
		n, err := raw.Read(p)
		gv.Assert(n == 0 && err != nil, "a failed read is reported and returns nothing")
		gv.Cover("failed read")
		return gv.ErrInjected
	})
}

// Verif_C21_complete: once complete, buffered bytes first, then straight through
func Verif_C21_complete() {
	a := gv.Bytes("body")
	later := gv.Bytes("later")
	gv.Assume(len(a) > 2 && len(a) < 1<<24 && len(later) > 0 && len(later) < 1<<24)
	w := gv.NewConn(specSecurityFrame(a))
	var conn net.Conn
	p := make([]byte, 2)
	_, err := specSecured(w, &tls.Config{}, func(raw net.Conn) error {
		conn = raw
		_, err := io.ReadFull(raw, p)
		gv.Assert(err == nil, "reading succeeds")
		return err
	})
	gv.Assert(err == nil, "connecting succeeds")
	gv.Assume(err == nil)
	w.Feed(later)
	gv.AssertEqBytes(p, a[:2], "the body that was read")
	got := make([]byte, len(a)-2)
	_, err = io.ReadFull(conn, got)
	gv.Assert(err == nil, "reading succeeds")
	gv.AssertEqBytes(got, a[2:], "the rest of it")
	for i := 0; i < 2 && len(later) > 0; i++ {
		q := make([]byte, 1+gv.Small("size of the read", 1<<24))
		n, err := conn.Read(q)
		gv.Assert(err == nil && n > 0 && n <= len(q) && n <= len(later), "reading succeeds")
		gv.Assume(n > 0 && n <= len(q) && n <= len(later))
		gv.AssertEqBytes(q[:n], later[:n], "and then the bytes of the connection")
		later = later[n:]
		gv.AssertEqBytes(w.Unread(), later, "as they are read from it")
	}
	x := gv.Bytes("written")
	gv.Assume(len(x) < 1<<24)
	k := len(w.Writes())
	if gv.Bool("the write fails") {
		w.FailFrom = k
		_, err = conn.Write(x)
		gv.Assert(err != nil, "a failed write is reported")
		return
	}
	n, err := conn.Write(x)
	out := w.Writes()
	gv.Assert(err == nil && n == len(x) && len(out) == k+1, "a write goes through")
	if len(out) == k+1 {
		gv.AssertEqBytes(out[k], x, "as it is")
	}
	gv.Assert(conn.LocalAddr() == w.LocalAddr() && conn.RemoteAddr() == w.RemoteAddr(), "the addresses are those of the connection")
	gv.Assert(conn.Close() == nil && w.Closed == 1, "closing closes the connection")
	gv.Cover("complete")
}

// Verif_C21_accepted: the bytes a piper has read already come first
func Verif_C21_accepted() {
	l := gv.NewListener()
	a, b := gv.Bytes("first body"), gv.Bytes("second body")
	gv.Assume(len(a) < 1<<24 && len(b) > 0 && len(b) < 1<<24)
	w := gv.NewConn(append(specSecurityFrame(a), specSecurityFrame(b)...))
	l.Queue(w, nil)
	ran := false
	gv.TLSHandshake = func(s *gv.TLSSession) error {
		ran = true
		got := make([]byte, len(a)+len(b))
		_, err := io.ReadFull(s.Raw, got)
		gv.Assert(err == nil, "reading succeeds")
		gv.AssertEqBytes(got, append(append([]byte{}, a...), b...), "the initial bytes, then the bodies that follow")
		return gv.ErrInjected
	}
	p, err := NewPiper(l, PiperConfig{
		Config: Config{TLS: &tls.Config{}},
		FindUpstream: func(h *MessageHeaders, c net.Conn) (net.Conn, Config, error) {
			gv.Assert(false, "nothing happens after a failed handshake")
			return nil, Config{}, gv.ErrInjected
		},
	})
	if err != nil {
		gv.Assert(false, "a piper is made")
		return
	}
	gv.Go(func() { p.Serve() })
	gv.Settle()
	gv.Assert(ran, "the handshake is tried")
	gv.Assert(w.Closed > 0, "the connection is closed after a failed handshake")
	gv.Cover("initial bytes")
}
