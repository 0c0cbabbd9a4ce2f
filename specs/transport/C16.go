//verif:property C16
//verif:needs transport/C10.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

func specRequest(id MessageId) *Message {
	m := &Message{}
	m.Headers.Id = id
	return m
}

func specReply(n string, id MessageId) *ByteArrayMessage {
	m := &ByteArrayMessage{Body: gv.Bytes(n + " body")}
	m.Headers.Id = MessageId{Index: 1}
	m.Headers.RelatesTo = id
	return m
}

type specWaiting struct {
	id   MessageId
	req  *PendingRequest
	ctx  *gv.Ctx
	task *gv.Task
	msg  *ByteArrayMessage
	err  error
}

func specWait(t *RequestTable, n string) *specWaiting {
	w := &specWaiting{id: specMessageId(n), ctx: gv.NewCtx()}
	gv.Assume(!w.id.IsEmpty())
	w.req = t.Put(specRequest(w.id))
	w.task = gv.Go(func() { w.msg, w.err = w.req.Wait(w.ctx) })
	return w
}

// Verif_C16_table: replies with any related id, to a table with three requests with any ids
func Verif_C16_table() {
	var t RequestTable
	a, b, c := specWait(&t, "a"), specWait(&t, "b"), specWait(&t, "c")
	gv.Assume(a.id != b.id && a.id != c.id && b.id != c.id)
	r := specReply("reply", specMessageId("related"))
	rel := r.Headers.RelatesTo
	took := t.Feed(r)
	gv.Settle()
	known := rel == a.id || rel == b.id || rel == c.id
	gv.Assert(took == known, "a message is taken exactly when it relates to a pending request")
	gv.Assert(a.task.Done() == (rel == a.id), "only the request the reply relates to ends")
	gv.Assert(b.task.Done() == (rel == b.id), "only the request the reply relates to ends")
	gv.Assert(c.task.Done() == (rel == c.id), "only the request the reply relates to ends")
	gv.Assert(rel != a.id || a.err == nil && a.msg == r, "the waiting request returns the reply")
	gv.Assert(rel != b.id || b.err == nil && b.msg == r, "the waiting request returns the reply")
	gv.Assert(rel != c.id || c.err == nil && c.msg == r, "the waiting request returns the reply")
	gv.Cover("first message")
	// a second message with any related id
	s := specReply("second", specMessageId("related again"))
	rel2 := s.Headers.RelatesTo
	took = t.Feed(s)
	gv.Settle()
	known = rel2 != rel && (rel2 == a.id || rel2 == b.id || rel2 == c.id)
	gv.Assert(took == known, "a request takes at most one reply")
	gv.Assert(b.task.Done() == (rel == b.id || rel2 == b.id), "only requests with replies end")
	gv.Assert(rel2 == rel || rel2 != b.id || b.err == nil && b.msg == s, "the second reply goes to its request")
	gv.Assert(rel != b.id || b.msg == r, "the first reply stays with its request")
}

// Verif_C16_empty: a message without a related id is never a reply
func Verif_C16_empty() {
	var t RequestTable
	w := specWait(&t, "pending")
	m := specReply("message", MessageId{})
	gv.Assert(!t.Feed(m), "a message with an empty related id is not taken")
	gv.Settle()
	gv.Assert(!w.task.Done(), "the request still waits")
	gv.Cover("no related id")
}

// Verif_C16_connection: two requests on one connection, their replies in any order, and other messages in between
func Verif_C16_connection() {
	w := gv.NewConn(nil)
	var others []*ByteArrayMessage
	cl, err := Connect(w, ClientConfig{MessageCallback: func(_ Conn, m *ByteArrayMessage) { others = append(others, m) }})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	gv.Go(func() { cl.Wait() })
	ctx := gv.NewCtx()
	var m1, m2 *ByteArrayMessage
	var e1, e2 error
	q1, q2 := &Message{}, &Message{}
	r1 := gv.Go(func() { m1, e1 = cl.RequestReply(ctx, q1) })
	r2 := gv.Go(func() { m2, e2 = cl.RequestReply(ctx, q2) })
	gv.Settle()
	gv.Assert(!r1.Done() && !r2.Done(), "both requests wait")
	gv.Assert(q1.Headers.Id != q2.Headers.Id, "requests have different ids")
	b1, b2 := gv.Bytes("first body"), gv.Bytes("second body")
	gv.Assume(len(b1) < 1<<20 && len(b2) < 1<<20)
	send := func(rel MessageId, body []byte) {
		m := &Message{Body: body}
		m.Headers.Id = MessageId{Index: 3}
		m.Headers.RelatesTo = rel
		m.Headers.Actor = MessageActorTypeGenericTestActor
		out := gv.NewConn(nil)
		gv.Assume(writeMessageWithFrame(out, m, frameWriteConfig{FrameHeaderCRC: true}) == nil)
		w.Feed(out.Wire())
	}
	unrelated := func() { send(MessageId{Id: q1.Headers.Id.Id, Index: 1000}, b1) }
	if gv.Bool("second reply first") {
		send(q2.Headers.Id, b2)
		unrelated()
		send(q1.Headers.Id, b1)
	} else {
		send(q1.Headers.Id, b1)
		unrelated()
		send(q2.Headers.Id, b2)
	}
	gv.Settle()
	gv.Assert(r1.Done() && r2.Done() && e1 == nil && e2 == nil, "both requests are answered")
	if m1 != nil && m2 != nil {
		gv.AssertEqBytes(m1.Body, b1, "the first request gets its reply")
		gv.AssertEqBytes(m2.Body, b2, "the second request gets its reply")
		gv.Cover("answered")
	}
	gv.Assert(len(others) == 1, "a message that relates to no request goes to the callback")
}
