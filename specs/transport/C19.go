//verif:property C19
//verif:needs transport/C16.go
package transport

import (
	"context"
	"fmt"
	"strings"

	gv "github.com/tg123/phabrik/zzgv"
)

// specInbound is what a peer puts on the wire for a message
func specInbound(m *Message) []byte {
	out := gv.NewConn(nil)
	gv.Assume(writeMessageWithFrame(out, m, frameWriteConfig{FrameHeaderCRC: true}) == nil)
	return out.Wire()
}

// specServed is a served connection with requests waiting on it
type specServed struct {
	w      *gv.Conn
	cl     *Client
	served *gv.Task
	end    error
	got    []*ByteArrayMessage
	from   []Conn
	ctx    *gv.Ctx
	out    int
}

func specServe() *specServed {
	s := &specServed{w: gv.NewConn(nil), ctx: gv.NewCtx()}
	cl, err := Connect(s.w, ClientConfig{MessageCallback: func(c Conn, m *ByteArrayMessage) {
		s.got = append(s.got, m)
		s.from = append(s.from, c)
	}})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		gv.Assume(false)
	}
	s.cl = cl
	s.served = gv.Go(func() { s.end = cl.Wait() })
	gv.Settle()
	return s
}

type specCall struct {
	q    *Message
	m    *ByteArrayMessage
	err  error
	task *gv.Task
}

func (s *specServed) request() *specCall {
	c := &specCall{q: &Message{}}
	c.task = gv.Go(func() { c.m, c.err = s.cl.RequestReply(s.ctx, c.q) })
	gv.Settle()
	gv.Assert(!c.task.Done(), "a request waits for its reply")
	s.out = len(s.w.Writes())
	return c
}

func (s *specServed) ended(calls ...*specCall) {
	gv.Assert(s.served.Done(), "the receiving loop ends")
	gv.Assert(s.w.Closed > 0, "the connection is closed")
	for _, c := range calls {
		gv.Assert(c.task.Done() && c.err != nil, "every waiting request ends with an error")
	}
}

// Verif_C19_any: one message for every kind of actor, action, error code and related id
func Verif_C19_any() {
	s := specServe()
	a, b := s.request(), s.request()
	m := &Message{}
	h := &m.Headers
	h.Id = MessageId{Index: 5}
	h.Actor = []MessageActorType{MessageActorTypeTransport, MessageActorTypeTransportSendTarget, MessageActorTypeGenericTestActor}[gv.Choice("actor", 3)]
	switch gv.Choice("action", 5) {
	case 1:
		h.Action = "ConnectionAuth"
	case 2:
		h.Action = "HeartbeatRequest"
	case 3:
		h.Action = "HeartbeatResponse"
	case 4:
		h.Action = "SomeAction"
	}
	if gv.Bool("fault") {
		h.ErrorCode = []FabricErrorCode{7, -1}[gv.Choice("error code", 2)]
	}
	rel := gv.Choice("relates to", 4)
	switch rel {
	case 1:
		h.RelatesTo = a.q.Headers.Id
	case 2:
		h.RelatesTo = b.q.Headers.Id
	case 3:
		h.RelatesTo = MessageId{Id: a.q.Headers.Id.Id, Index: 1000}
	}
	body := gv.BytesN("body", 4)
	m.Body = body
	want := *h
	s.w.Feed(specInbound(m))
	gv.Settle()
	if want.Actor == MessageActorTypeTransport {
		gv.Assert(len(s.got) == 0, "a transport message is not given to the callback")
		gv.Assert(!a.task.Done() && !b.task.Done(), "a transport message is not a reply")
		gv.Assert(!s.served.Done() && s.w.Closed == 0, "the connection goes on")
		n := 0
		if want.Action == "HeartbeatRequest" {
			n = 1
		}
		gv.Assert(len(s.w.Writes()) == s.out+n, "a transport message is handled by the transport")
		gv.Cover("transport message")
		return
	}
	gv.Assert(len(s.w.Writes()) == s.out, "nothing is sent")
	if want.Actor == MessageActorTypeTransportSendTarget && want.Action == "ConnectionAuth" && want.ErrorCode != 0 {
		s.ended(a, b)
		gv.Assert(len(s.got) == 0, "a failed authentication is not given to the callback")
		gv.Assert(s.cl.SendOneWay(&Message{}) != nil, "later sends fail")
		gv.Cover("authentication failed")
		return
	}
	gv.Assert(!s.served.Done() && s.w.Closed == 0, "the connection goes on")
	gv.Assert(a.task.Done() == (rel == 1) && b.task.Done() == (rel == 2), "a reply goes to its request only")
	if rel == 1 || rel == 2 {
		c := a
		if rel == 2 {
			c = b
		}
		gv.Assert(len(s.got) == 0, "a reply is not given to the callback")
		gv.Assert(c.err == nil && c.m != nil, "the request gets its reply")
		if c.m != nil {
			gv.Assert(c.m.Headers.Action == want.Action && c.m.Headers.Actor == want.Actor && c.m.Headers.ErrorCode == want.ErrorCode, "the reply is the message")
			gv.AssertEqBytes(c.m.Body, body, "the reply has the body")
		}
		gv.Cover("reply")
		return
	}
	gv.Assert(len(s.got) == 1, "any other message is given to the callback once")
	if len(s.got) == 1 {
		g := s.got[0]
		gv.Assert(g.Headers.Id == want.Id && g.Headers.Action == want.Action && g.Headers.Actor == want.Actor && g.Headers.ErrorCode == want.ErrorCode && g.Headers.RelatesTo == want.RelatesTo, "the callback gets the message")
		gv.AssertEqBytes(g.Body, body, "the callback gets the body")
		gv.Assert(s.from[0] != nil, "with its connection")
	}
	gv.Cover("callback")
}

// Verif_C19_sequence: three messages of any kind, one after the other, sent in one or several pieces
func Verif_C19_sequence() {
	s := specServe()
	a, b := s.request(), s.request()
	var wire []byte
	var want []uint32
	left := []*specCall{a, b}
	var answered []*specCall
	beats := 0
	for i := 0; i < 3; i++ {
		m := &Message{}
		m.Headers.Id = MessageId{Index: uint32(100 + i)}
		m.Headers.Actor = MessageActorTypeGenericTestActor
		switch gv.Choice("kind", 4) {
		case 0:
			want = append(want, uint32(100+i))
		case 1:
			gv.Assume(len(left) > 0)
			m.Headers.RelatesTo = left[0].q.Headers.Id
			answered = append(answered, left[0])
			left = left[1:]
		case 2: // answered before
			gv.Assume(len(answered) > 0)
			m.Headers.RelatesTo = answered[0].q.Headers.Id
			want = append(want, uint32(100+i))
		case 3:
			m.Headers.Actor = MessageActorTypeTransport
			m.Headers.Action = "HeartbeatRequest"
			beats++
		}
		wire = append(wire, specInbound(m)...)
	}
	s.w.Feed(wire)
	if gv.Bool("the peer closes") {
		s.w.End()
		gv.Settle()
		s.ended(left...)
		gv.Assert(s.end != nil, "the loop ends with the read error")
	} else {
		gv.Settle()
		gv.Assert(!s.served.Done() && s.w.Closed == 0, "the connection goes on")
		gv.Assert(len(s.w.Writes()) == s.out+beats, "heartbeats are answered")
		for _, c := range left {
			gv.Assert(!c.task.Done(), "unanswered requests go on waiting")
		}
	}
	for _, c := range answered {
		gv.Assert(c.task.Done() && c.err == nil, "answered requests end")
	}
	gv.Assert(len(s.got) == len(want), "other messages are given to the callback once")
	if len(s.got) == len(want) {
		for i := range want {
			gv.Assert(s.got[i].Headers.Id.Index == want[i], "in order")
		}
	}
	gv.Cover("sequence")
}

// Verif_C19_auth: a failed authentication ends everything with its error code
func Verif_C19_auth() {
	s := specServe()
	a := s.request()
	m := &Message{}
	m.Headers.Id = MessageId{Index: 5}
	m.Headers.Actor = MessageActorTypeTransportSendTarget
	m.Headers.Action = "ConnectionAuth"
	code := []FabricErrorCode{-2147017661, 7, -1}[gv.Choice("error code", 3)]
	m.Headers.ErrorCode = code
	switch gv.Choice("body", 3) {
	case 1:
		m.Body = &struct{ Message string }{"no access"}
	case 2:
		m.Body = gv.BytesN("junk", 2)
	}
	if gv.Bool("it relates to the request") {
		m.Headers.RelatesTo = a.q.Headers.Id
	}
	s.w.Feed(specInbound(m))
	gv.Settle()
	s.ended(a)
	gv.Assert(len(s.got) == 0, "a failed authentication is not given to the callback")
	n := len(s.w.Writes())
	e1 := s.cl.SendOneWay(&Message{})
	_, e2 := s.cl.RequestReply(context.Background(), &Message{})
	_, e3 := s.cl.Ping(context.Background())
	for _, e := range []error{e1, e2, e3} {
		gv.Assert(e != nil && strings.Contains(e.Error(), fmt.Sprint(int64(code))), "every later send fails with the error code")
	}
	gv.Assert(len(s.w.Writes()) == n, "nothing is sent any more")
	gv.Cover("authentication failed")
}

// Verif_C19_read: the stream ends or fails at any byte
func Verif_C19_read() {
	s := specServe()
	a := s.request()
	m := &Message{Body: gv.BytesN("body", 3)}
	m.Headers.Id = MessageId{Index: 5}
	m.Headers.Actor = MessageActorTypeGenericTestActor
	w := specInbound(m)
	n := gv.Choice("bytes that arrive", len(w)+1)
	s.w.Feed(w[:n])
	if gv.Bool("closed here") {
		gv.Settle()
		s.cl.Close()
	} else {
		s.w.End()
	}
	gv.Settle()
	s.ended(a)
	gv.Assert(s.end != nil, "the loop ends with the read error")
	full := 0
	if n == len(w) {
		full = 1
	}
	gv.Assert(len(s.got) == full, "only complete messages are dispatched")
	gv.Cover("read error")
}

// Verif_C19_server: the messages of a connection a server accepted
func Verif_C19_server() {
	l := gv.NewListener()
	var got []*ByteArrayMessage
	sv, err := Listen(l, ServerConfig{MessageCallback: func(c Conn, m *ByteArrayMessage) { got = append(got, m) }})
	if err != nil {
		gv.Assert(false, "listening succeeds")
		return
	}
	if gv.Bool("another callback") {
		sv.SetMessageCallback(nil)
		if gv.Bool("set again") {
			sv.SetMessageCallback(func(c Conn, m *ByteArrayMessage) { got = append(got, m) })
		}
	}
	gv.Go(func() { sv.Serve() })
	w := gv.NewConn(nil)
	l.Queue(w, nil)
	gv.Settle()
	n := len(w.Writes())
	gv.Assert(n == 1, "an accepted connection is opened with the transport's first message")
	m := &Message{Body: gv.BytesN("body", 3)}
	m.Headers.Id = MessageId{Index: 5}
	m.Headers.Actor = MessageActorType(gv.I64("actor"))
	m.Headers.Action = "SomeAction"
	if gv.Bool("relates") {
		m.Headers.RelatesTo = MessageId{Index: 77}
	}
	body := m.Body.([]byte)
	tr := m.Headers.Actor == MessageActorTypeTransport
	w.Feed(specInbound(m))
	gv.Settle()
	gv.Assert(w.Closed == 0, "the connection goes on")
	gv.Assert(len(w.Writes()) == n, "nothing is sent")
	if tr || sv.messageCallback == nil {
		gv.Assert(len(got) == 0, "a transport message is not given to the callback")
	} else {
		gv.Assert(len(got) == 1, "a message is given to the server's callback once")
		if len(got) == 1 {
			gv.AssertEqBytes(got[0].Body, body, "with its body")
		}
	}
	w.End()
	gv.Settle()
	gv.Assert(w.Closed > 0, "the connection is closed when the peer ends it")
	gv.Cover("server")
}
