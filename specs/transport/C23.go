//verif:property C23
//verif:needs transport/C19.go
//verif:needs transport/C13.go
package transport

import (
	"net"

	gv "github.com/tg123/phabrik/zzgv"
)

// specPiped is a piper between two connections whose other ends are the specification
type specPiped struct {
	down, up *gv.Conn
	serve    *gv.Task
	found    int
	asked    []*MessageHeaders
}

func specPipe(filter MessageTransformer, up Config) *specPiped {
	s := &specPiped{down: gv.NewConn(nil), up: gv.NewConn(nil)}
	s.down.Whole, s.up.Whole = true, true
	l := gv.NewListener()
	p, err := NewPiper(l, PiperConfig{Filter: filter, FindUpstream: func(h *MessageHeaders, c net.Conn) (net.Conn, Config, error) {
		s.found++
		s.asked = append(s.asked, h)
		gv.Assert(c == net.Conn(s.down), "the upstream is looked up for the connection")
		return s.up, up, nil
	}})
	gv.Assert(err == nil, "a piper is made")
	gv.Assume(err == nil)
	s.serve = gv.Go(func() { p.Serve() })
	l.Queue(s.down, nil)
	return s
}

// specPlain is a message with an index, an action and a body
func specPlain(i uint32, action string, body []byte) *Message {
	m := &Message{Body: body}
	m.Headers.Id = MessageId{Index: i}
	m.Headers.Actor = MessageActorTypeGenericTestActor
	m.Headers.Action = action
	return m
}

// specArrived reads what was written as messages and compares them with the ones that were to arrive
func specArrived(out [][]byte, want ...*Message) {
	gv.Assert(len(out) == len(want), "each message is written once")
	if len(out) != len(want) {
		return
	}
	for i, o := range out {
		h, b, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: o}, frameReadConfig{CheckFrameHeaderCRC: true})
		gv.Assert(err == nil, "the message is well formed")
		gv.Assume(err == nil)
		specSame(h, &want[i].Headers)
		for _, id := range []MessageHeaderIdType{specXA, specXB} {
			a, w := h.GetCustomHeaders(id), want[i].Headers.GetCustomHeaders(id)
			gv.Assert(len(a) == len(w), "the same custom headers")
			if len(a) == len(w) {
				for j := range a {
					x, ok := a[j].([]byte)
					gv.Assert(ok, "the same custom headers")
					if ok {
						gv.AssertEqBytes(x, w[j].([]byte), "the same custom headers")
					}
				}
			}
		}
		gv.AssertEqBytes(b, want[i].Body.([]byte), "the same body, in order")
	}
}

// Verif_C23_forward: messages in both directions
func Verif_C23_forward() {
	s := specPipe(nil, Config{})
	var bs [5][]byte
	for i := range bs {
		bs[i] = gv.BytesN("body", i)
	}
	for _, i := range []int{1, 3} {
		bs[i] = gv.Bytes("any body")
		gv.Assume(len(bs[i]) < 1<<24)
	}
	first, m1, m2 := specPlain(1, "", bs[0]), specPlain(2, "first", bs[1]), specPlain(3, "second", bs[2])
	r1, r2 := specPlain(4, "answer", bs[3]), specPlain(5, "other answer", bs[4])
	m1.Headers.ExpectsReply = true
	m1.Headers.Idempotent = true
	m2.Headers.AppendCustomHeader(specXA, []byte(gv.BytesN("custom", 3)), []byte{})
	m2.Headers.SetCustomHeader(specXB, []byte{1})
	r1.Headers.RelatesTo = m1.Headers.Id
	r2.Headers.ErrorCode = 5
	r2.Headers.HasFaultBody = gv.Bool("fault body")
	first.Headers.Actor = MessageActorTypeTransport
	first.Headers.HighPriority = true
	s.down.Feed(specInbound(first))
	gv.Settle()
	gv.Assert(s.found == 1 && s.asked[0].Actor == MessageActorTypeTransport, "the upstream is looked up once, by the first message")
	nd, nu := len(s.down.Writes()), len(s.up.Writes())
	gv.Assert(nu >= 1 && nd >= 1, "both connections are opened")
	specArrived(s.up.Writes()[nu-1:], first)
	if gv.Bool("all at once") {
		s.down.Feed(append(specInbound(m1), specInbound(m2)...))
		s.up.Feed(append(specInbound(r1), specInbound(r2)...))
	} else {
		s.up.Feed(specInbound(r1))
		gv.Settle()
		s.down.Feed(specInbound(m1))
		gv.Settle()
		s.down.Feed(specInbound(m2))
		s.up.Feed(specInbound(r2))
	}
	gv.Settle()
	specArrived(s.up.Writes()[nu:], m1, m2)
	specArrived(s.down.Writes()[nd:], r1, r2)
	gv.Assert(s.up.Closed == 0 && s.down.Closed == 0, "the pipe goes on")
	gv.Cover("forward")
}

// Verif_C23_any: one message with any headers
func Verif_C23_any() {
	s := specPipe(nil, Config{})
	s.down.Feed(specInbound(specPlain(1, "", nil)))
	gv.Settle()
	m := specPlain(2, "", gv.BytesN("body", 2))
	h := &m.Headers
	switch gv.Choice("header", 6) {
	case 0:
		h.Id = specMessageId("id")
	case 1:
		h.Actor = MessageActorType(gv.I64("actor"))
	case 2:
		h.RelatesTo = specMessageId("related")
	case 3:
		h.ErrorCode, h.HasFaultBody = FabricErrorCode(gv.I64("error code")), gv.Bool("fault body")
	case 4:
		h.RetryCount = gv.I32("retry count")
		gv.Assume(h.RetryCount >= 0)
	case 5:
		h.ExpectsReply, h.HighPriority, h.Idempotent = gv.Bool("expects reply"), gv.Bool("high priority"), gv.Bool("idempotent")
	}
	to, from := s.up, s.down
	if gv.Bool("from upstream") {
		to, from = from, to
	}
	k := len(to.Writes())
	from.Feed(specInbound(m))
	gv.Settle()
	specArrived(to.Writes()[k:], m)
	gv.Cover("any header")
}

// Verif_C23_filter: a filter that passes, replaces or drops each of three messages
func Verif_C23_filter() {
	var verdict [3]int
	for i := range verdict {
		verdict[i] = gv.Choice("verdict", 3)
	}
	other := gv.BytesN("other body", 3)
	n := 0
	var s *specPiped
	up := gv.Bool("from upstream")
	s = specPipe(func(src, dst net.Conn, msg *ByteArrayMessage) *Message {
		if up {
			gv.Assert(src == net.Conn(s.up) && dst == net.Conn(s.down), "the filter is told the direction")
		} else {
			gv.Assert(src == net.Conn(s.down) && dst == net.Conn(s.up), "the filter is told the direction")
		}
		gv.Assert(n < 3 && int(msg.Headers.Id.Index) == 10+n, "the filter sees every message once, in order")
		n++
		switch verdict[(n-1)%3] {
		case 0:
			return &Message{Headers: msg.Headers, Body: msg.Body}
		case 1:
			return specPlain(uint32(100+n-1), "replaced", other)
		}
		return nil
	}, Config{})
	s.down.Feed(specInbound(specPlain(1, "", nil)))
	gv.Settle()
	to, from := s.up, s.down
	if up {
		to, from = from, to
	}
	k := len(to.Writes())
	var want []*Message
	for i := 0; i < 3; i++ {
		m := specPlain(uint32(10+i), "original", gv.BytesN("body", 2))
		from.Feed(specInbound(m))
		switch verdict[i] {
		case 0:
			want = append(want, m)
		case 1:
			want = append(want, specPlain(uint32(100+i), "replaced", other))
		}
	}
	gv.Settle()
	gv.Assert(n == 3, "the filter sees every message")
	specArrived(to.Writes()[k:], want...)
	gv.Assert(s.up.Closed == 0 && s.down.Closed == 0, "the pipe goes on")
	gv.Cover("filter")
}

// Verif_C23_end: one side ends, fails or cannot be written to
func Verif_C23_end() {
	s := specPipe(nil, Config{})
	s.down.Feed(specInbound(specPlain(1, "", nil)))
	gv.Settle()
	a, b := s.up, s.down
	if gv.Bool("upstream") {
		a, b = b, a
	}
	m := specPlain(2, "last", gv.BytesN("body", 2))
	k := len(b.Writes())
	n := 1
	switch gv.Choice("what happens", 4) {
	case 0:
		a.Feed(specInbound(m))
		a.End()
	case 1:
		w := specInbound(m)
		a.Feed(w[:gv.Choice("bytes that arrive", len(w))])
		a.End()
		n = 0
	case 2:
		w := specInbound(m)
		w[5] ^= 1 // checksum
		a.Feed(w)
		n = 0
	case 3:
		b.FailFrom = k
		a.Feed(specInbound(m))
		n = 0
	}
	gv.Settle()
	gv.Assert(len(b.Writes()) == k+n, "only whole messages are passed on")
	gv.Assert(s.up.Closed > 0 && s.down.Closed > 0, "an error ends the pipe and closes both connections")
	gv.Assert(gv.Threads() == 1, "nothing is left of the pipe")
	gv.Assert(!s.serve.Done(), "the piper goes on accepting")
	gv.Cover("end")
}

// Verif_C23_none: a piper needs to know the upstream
func Verif_C23_none() {
	p, err := NewPiper(gv.NewListener(), PiperConfig{})
	gv.Assert(p == nil && err != nil, "a piper without upstream is refused")
	gv.Cover("refused")
}
