//verif:property C17
//verif:needs transport/C16.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C17_race: reply, cancellation and closing at any moment of a wait
func Verif_C17_race() {
	gv.Interleave(40)
	var t RequestTable
	id := MessageId{Index: 4}
	id.Id.Data1 = gv.U32("id")
	p := t.Put(specRequest(id))
	ctx := gv.NewCtx()
	r := &ByteArrayMessage{}
	r.Headers.RelatesTo = id
	var msg *ByteArrayMessage
	var err error
	var took bool
	wait := gv.Go(func() { msg, err = p.Wait(ctx) })
	feed := gv.Go(func() { took = t.Feed(r) })
	what := gv.Choice("what else happens", 4)
	other := gv.Go(func() {
		switch what {
		case 0:
			ctx.Cancel()
		case 1:
			t.Close()
		case 2:
			p.Close()
		}
	})
	gv.Settle()
	gv.Assert(feed.Done(), "feeding a reply does not block")
	gv.Assert(other.Done(), "cancelling and closing does not block")
	gv.Assert(wait.Done(), "the wait ends")
	gv.Assert((err == nil) == (msg != nil), "a reply or an error")
	gv.Assert(msg == nil || msg == r && took, "only the reply that was taken is returned")
	gv.Assert(!t.Feed(r), "the request is not pending after its wait")
	gv.Assert(p.Close() == nil && t.Close() == nil && p.Close() == nil, "closing again is harmless")
	if err == nil {
		gv.Cover("reply wins")
	} else {
		gv.Cover("reply loses")
	}
}

// Verif_C17_cancel: the context ends the wait, whatever else there is
func Verif_C17_cancel() {
	var t RequestTable
	a, b := specWait(&t, "a"), specWait(&t, "b")
	gv.Assume(a.id != b.id)
	a.ctx.Cancel()
	gv.Settle()
	gv.Assert(a.task.Done() && a.err != nil && a.msg == nil, "a request whose context ends returns an error")
	gv.Assert(!b.task.Done(), "other requests go on waiting")
	late := specReply("late", a.id)
	f := gv.Go(func() { gv.Assert(!t.Feed(late), "a late reply is not taken") })
	gv.Settle()
	gv.Assert(f.Done(), "feeding a late reply does not block")
	gv.Assert(t.Feed(specReply("reply", b.id)), "the other request is still pending")
	gv.Settle()
	gv.Assert(b.task.Done() && b.err == nil, "and gets its reply")
	gv.Cover("cancelled")
}

// Verif_C17_closed: closing the table ends every wait with an error
func Verif_C17_closed() {
	var t RequestTable
	ws := []*specWaiting{specWait(&t, "a"), specWait(&t, "b"), specWait(&t, "c")}
	gv.Assume(ws[0].id != ws[1].id && ws[0].id != ws[2].id && ws[1].id != ws[2].id)
	gv.Assert(t.Close() == nil, "closing succeeds")
	gv.Settle()
	for i := range ws {
		gv.Assert(ws[i].task.Done() && ws[i].err != nil, "every waiting request ends with an error")
		gv.Assert(!t.Feed(specReply("late", ws[i].id)), "and is not pending any more")
		gv.Assert(ws[i].req.Close() == nil, "closing a request again is harmless")
	}
	gv.Assert(t.Close() == nil, "closing the table again is harmless")
	gv.Cover("closed")
}

// Verif_C17_giveup: the requester gave up but has not removed itself yet
func Verif_C17_giveup() {
	var t RequestTable
	p := t.Put(specRequest(MessageId{Index: 1}))
	r := specReply("reply", MessageId{Index: 1})
	f := gv.Go(func() { t.Feed(r) })
	gv.Settle()
	gv.Assert(f.Done(), "feeding a reply nobody waits for yet does not block")
	if gv.Bool("closed") {
		p.Close()
	}
	ctx := gv.NewCtx()
	var msg *ByteArrayMessage
	var err error
	w := gv.Go(func() { msg, err = p.Wait(ctx) })
	gv.Settle()
	gv.Assert(w.Done(), "a wait that starts after the reply ends")
	gv.Assert((err == nil) == (msg == r), "with the reply or an error")
	gv.Cover("late wait")
}

// Verif_C17_connection: the connection ends, and with it every request on it
func Verif_C17_connection() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	serve := gv.Go(func() { cl.Wait() })
	ctx := gv.NewCtx()
	var e1, e2 error
	r1 := gv.Go(func() { _, e1 = cl.RequestReply(ctx, &Message{}) })
	r2 := gv.Go(func() { _, e2 = cl.RequestReply(ctx, &Message{}) })
	gv.Settle()
	if gv.Bool("the peer ends it") {
		w.End()
	} else {
		cl.Close()
	}
	gv.Settle()
	gv.Assert(serve.Done(), "the receiving loop ends")
	gv.Assert(r1.Done() && e1 != nil && r2.Done() && e2 != nil, "every waiting request ends with an error")
	gv.Cover("connection ended")
}

// Verif_C17_over: a request that failed to be sent or whose context ended is over for the connection too
func Verif_C17_over() {
	w := gv.NewConn(nil)
	var others int
	cl, err := Connect(w, ClientConfig{MessageCallback: func(_ Conn, m *ByteArrayMessage) { others++ }})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	gv.Go(func() { cl.Wait() })
	ctx := gv.NewCtx()
	q := &Message{}
	how := gv.Choice("how the request ends", 4)
	switch how {
	case 0:
		w.FailFrom = len(w.Out)
	case 1:
		q.Body = struct{ C chan int }{} // cannot be serialized
	case 2:
		ctx.Cancel()
	}
	var rerr error
	r := gv.Go(func() { _, rerr = cl.RequestReply(ctx, q) })
	gv.Settle()
	if how == 3 {
		gv.Assert(!r.Done(), "the request waits")
		ctx.Cancel()
		gv.Settle()
	}
	gv.Assert(r.Done() && rerr != nil, "the request ends with an error")
	late := &Message{}
	late.Headers.Id = MessageId{Index: 3}
	late.Headers.RelatesTo = q.Headers.Id
	late.Headers.Actor = MessageActorTypeGenericTestActor
	out := gv.NewConn(nil)
	gv.Assume(writeMessageWithFrame(out, late, frameWriteConfig{FrameHeaderCRC: true}) == nil)
	w.Feed(out.Wire())
	gv.Settle()
	gv.Assert(others == 1, "a message relating to a request that is over is not taken for its reply")
	gv.Cover("over")
}
