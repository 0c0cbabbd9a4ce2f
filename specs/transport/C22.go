//verif:property C22
//verif:note crypto/tls is replaced by a session whose handshake is scripted by the specification and whose records carry the plain text behind a header of their own
//verif:needs transport/C21.go
package transport

import (
	"crypto/tls"
	"fmt"
	"net"

	gv "github.com/tg123/phabrik/zzgv"
)

func specConfig(t *tls.Config) Config {
	return Config{TLS: t, DisableCheckFrameHeaderCRC: gv.Bool("no header check"), DisableGenerateFrameHeaderCRC: gv.Bool("no header crc"),
		CheckFrameBodyCRC: gv.Bool("body check"), GenerateFrameBodyCRC: gv.Bool("body crc")}
}

// specOneRecord checks that what was written is a message inside one TLS record and returns it
func specOneRecord(out []byte) (*MessageHeaders, []byte) {
	gv.Assert(len(out) > 5 && out[0] == 23, "what is written is a TLS record")
	gv.Assume(len(out) > 5)
	f := out[5:]
	gv.AssertEqBytes(out, gv.TLSRecord(f), "and nothing besides it")
	gv.Assume(len(f) >= 12)
	gv.Assert(f[4] == byte(securityProviderSsl), "with the SSL security mask")
	gv.Assert(f[5] == 0 && f[8] == 0 && f[9] == 0 && f[10] == 0 && f[11] == 0, "with checksums off")
	s := &gv.Stream{Data: f}
	h, b, err := nextMessageHeaderAndBodyFromFrame(s, frameReadConfig{})
	gv.Assert(err == nil && len(s.Rest()) == 0, "holding one message")
	gv.Assume(err == nil)
	return h, b
}

func specUnsealed(m *Message) []byte {
	out := gv.NewConn(nil)
	gv.Assume(writeMessageWithFrame(out, m, frameWriteConfig{SecurityProviderMask: securityProviderSsl}) == nil)
	return gv.TLSRecord(out.Wire())
}

// specHandshake scripts a handshake that ends one way or the other after some messages
func specHandshake(config *tls.Config, server bool, fails bool) (n *int) {
	n = new(int)
	hello := gv.Choice("handshake messages", 3)
	gv.TLSHandshake = func(s *gv.TLSSession) error {
		*n++
		gv.Assert(s.Config == config, "TLS runs with the given configuration")
		gv.Assert(s.Server == server, "in its own role")
		for i := 0; i < hello; i++ {
			if _, err := s.Raw.Write(gv.BytesN("hello", 3)); err != nil {
				return err
			}
		}
		if fails {
			return fmt.Errorf("bad certificate")
		}
		return nil
	}
	return n
}

func specHandshakeFrames(out [][]byte) int {
	n := 0
	for _, o := range out {
		if len(o) > 0 && o[0] == 23 && len(o) > 5 && o[4] != byte(securityProviderSsl) {
			break
		}
		h, _, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: o}, frameReadConfig{})
		if err != nil || h.Actor != MessageActorTypeSecurityContext {
			break
		}
		n++
	}
	return n
}

// Verif_C22_client: a client connection
func Verif_C22_client() {
	t := &tls.Config{}
	fails := gv.Bool("the handshake fails")
	tried := specHandshake(t, false, fails)
	w := gv.NewConn(nil)
	w.Whole = true
	var got []*ByteArrayMessage
	var cfg Config
	if fails {
		cfg.TLS = t
	} else {
		cfg = specConfig(t)
	}
	cl, err := Connect(w, ClientConfig{Config: cfg, MessageCallback: func(c Conn, m *ByteArrayMessage) { got = append(got, m) }})
	gv.Assert(*tried == 1, "the handshake is made once, while connecting")
	k := specHandshakeFrames(w.Writes())
	if fails {
		gv.Assert(err != nil && cl == nil, "a failed handshake makes connecting fail")
		gv.Assert(len(w.Writes()) == k, "and nothing but the handshake is sent")
		gv.Cover("handshake fails")
		return
	}
	gv.Assert(err == nil && cl != nil, "connecting succeeds")
	if err != nil || cl == nil {
		return
	}
	out := w.Writes()
	gv.Assert(len(out) == k+1, "after the handshake one message is sent")
	if len(out) != k+1 {
		return
	}
	h, _ := specOneRecord(out[k])
	gv.Assert(h.Actor == MessageActorTypeTransport, "the transport-init message")
	// both directions
	served := gv.Go(func() { cl.Wait() })
	in := &Message{Body: gv.BytesN("inbound", 3)}
	in.Headers.Id = MessageId{Index: 7}
	in.Headers.Actor = MessageActorTypeGenericTestActor
	ib := in.Body.([]byte)
	w.Feed(specUnsealed(in))
	gv.Settle()
	gv.Assert(len(got) == 1, "a message inside TLS arrives")
	if len(got) == 1 {
		gv.AssertEqBytes(got[0].Body, ib, "with its body")
	}
	m := &Message{Body: gv.BytesN("outbound", 3)}
	m.Headers.Actor = MessageActorTypeGenericTestActor
	ob := m.Body.([]byte)
	gv.Assert(cl.SendOneWay(m) == nil, "sending succeeds")
	ctx := gv.NewCtx()
	gv.Go(func() { cl.RequestReply(ctx, &Message{}) })
	gv.Go(func() { cl.Ping(ctx) })
	gv.Settle()
	out = w.Writes()
	gv.Assert(len(out) == k+4, "each message is sent")
	if len(out) != k+4 {
		return
	}
	_, b := specOneRecord(out[k+1])
	gv.AssertEqBytes(b, ob, "the message that was sent")
	specOneRecord(out[k+2])
	specOneRecord(out[k+3])
	gv.Assert(!served.Done(), "the connection goes on")
	// a message outside TLS is not accepted
	w.Feed(specInbound(in))
	gv.Settle()
	gv.Assert(len(got) == 1 && served.Done(), "a message outside TLS is not taken")
	gv.Cover("client")
}

// Verif_C22_server: an accepted connection
func Verif_C22_server() {
	t := &tls.Config{}
	fails := gv.Bool("the handshake fails")
	tried := specHandshake(t, true, fails)
	var cfg Config
	if fails {
		cfg.TLS = t
	} else {
		cfg = specConfig(t)
	}
	w := gv.NewConn(nil)
	w.Whole = true
	l := gv.NewListener()
	var got []*ByteArrayMessage
	sv, err := Listen(l, ServerConfig{Config: cfg, MessageCallback: func(c Conn, m *ByteArrayMessage) {
		got = append(got, m)
		c.SendOneWay(&Message{})
	}})
	if err != nil {
		gv.Assert(false, "listening succeeds")
		return
	}
	gv.Go(func() { sv.Serve() })
	l.Queue(w, nil)
	in := &Message{Body: gv.BytesN("inbound", 3)}
	in.Headers.Id = MessageId{Index: 7}
	in.Headers.Actor = MessageActorTypeGenericTestActor
	w.Feed(specUnsealed(in))
	gv.Settle()
	gv.Assert(*tried == 1, "the handshake is made once")
	k := specHandshakeFrames(w.Writes())
	out := w.Writes()
	if fails {
		gv.Assert(len(out) == k && len(got) == 0, "nothing but the handshake is sent when it fails")
		gv.Assert(w.Closed > 0, "and the connection is closed")
		gv.Cover("handshake fails")
		return
	}
	gv.Assert(len(out) == k+2, "the transport's first message and the answer are sent")
	if len(out) != k+2 {
		return
	}
	h, _ := specOneRecord(out[k])
	gv.Assert(h.Actor == MessageActorTypeTransport, "the transport-init message comes first")
	specOneRecord(out[k+1])
	gv.Assert(len(got) == 1, "a message inside TLS arrives")
	gv.Assert(w.Closed == 0, "the connection goes on")
	gv.Cover("server")
}

// Verif_C22_plain: without TLS the given connection is used
func Verif_C22_plain() {
	gv.TLSHandshake = func(s *gv.TLSSession) error {
		gv.Assert(false, "there is no handshake without TLS")
		return nil
	}
	cfg := specConfig(nil)
	w := gv.NewConn(nil)
	w.Whole = true
	if gv.Bool("server") {
		l := gv.NewListener()
		sv, err := Listen(l, ServerConfig{Config: cfg})
		gv.Assume(err == nil)
		gv.Go(func() { sv.Serve() })
		l.Queue(w, nil)
		gv.Settle()
	} else {
		_, err := Connect(w, ClientConfig{Config: cfg})
		gv.Assert(err == nil, "connecting succeeds")
	}
	out := w.Writes()
	gv.Assert(len(out) == 1, "the transport-init message is sent")
	if len(out) != 1 {
		return
	}
	f := out[0]
	h, b, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: f}, frameReadConfig{CheckFrameHeaderCRC: !cfg.DisableGenerateFrameHeaderCRC, CheckFrameBodyCRC: cfg.GenerateFrameBodyCRC})
	gv.Assert(err == nil, "on the given connection, in a frame with the configured checksums")
	gv.Assume(err == nil)
	hl := len(f) - 12 - len(b)
	gv.AssertEqBytes(f, specFrame(f[12:], hl, byte(securityProviderNone), !cfg.DisableGenerateFrameHeaderCRC, cfg.GenerateFrameBodyCRC), "without security mask")
	gv.Assert(h.Actor == MessageActorTypeTransport, "the transport-init message")
	gv.Cover("plain")
}

// Verif_C22_write: a failure of the connection during the handshake
func Verif_C22_write() {
	t := &tls.Config{}
	w := gv.NewConn(nil)
	w.Whole = true
	w.FailFrom = gv.Choice("failing write", 3)
	_, err := specSecured(w, t, func(raw net.Conn) error {
		for i := 0; i < 2; i++ {
			if _, err := raw.Write([]byte{1}); err != nil {
				return err
			}
		}
		return nil
	})
	gv.Assert(err != nil, "a handshake or first message that cannot be sent makes connecting fail")
	gv.Cover("connection fails")
}
