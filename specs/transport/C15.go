//verif:property C15
//verif:needs transport/C10.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// specWholeFrame: the bytes are one frame, from its first byte to its last
func specWholeFrame(b []byte) bool {
	return len(b) >= 12 && int(b[0])|int(b[1])<<8|int(b[2])<<16|int(b[3])<<24 == len(b)
}

// gvxWholeFrames: every write on the connection is one whole frame
func gvxWholeFrames(w *gv.Conn, n int) {
	out := w.Writes()
	gv.Assert(len(out) == n, "one write per message")
	for i := range out {
		gv.Assert(specWholeFrame(out[i]), "each write is one whole frame")
	}
}

// Verif_C15_message: one message, whatever it contains
func Verif_C15_message() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{Config: Config{
		DisableGenerateFrameHeaderCRC: gv.Bool("no header crc"),
		GenerateFrameBodyCRC:          gv.Bool("body crc"),
	}})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	gvxWholeFrames(w, 1)
	m := &Message{Body: gv.Bytes("body")}
	m.Headers.Id = MessageId{Index: 5}
	m.Headers.Actor = MessageActorTypeGenericTestActor
	m.Headers.Action = gv.String("action")
	m.Headers.SetCustomHeader(MessageHeaderIdType(0x2222), gv.Bytes("header"))
	err = cl.SendOneWay(m)
	if err != nil {
		gvxWholeFrames(w, 1)
		gv.Cover("refused")
	} else {
		gvxWholeFrames(w, 2)
		gv.Cover("sent")
	}
}

// Verif_C15_failure: when the write fails the sender is told
func Verif_C15_failure() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	w.FailFrom = 1 + gv.Choice("writes that succeed", 3)
	for i := 1; i <= 3; i++ {
		err := cl.SendOneWay(&Message{Body: gv.BytesN("body", 3)})
		gv.Assert((err != nil) == (i >= w.FailFrom), "sending fails exactly when the write fails")
	}
	_, err = cl.RequestReply(gv.NewCtx(), &Message{})
	gv.Assert(err != nil, "a request whose write fails ends with an error")
	_, err = cl.Ping(gv.NewCtx())
	gv.Assert(err != nil, "a ping whose write fails ends with an error")
	gv.Cover("failed write")
}

// Verif_C15_senders: two senders at the same time, in every interleaving
func Verif_C15_senders() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	gv.Interleave(40)
	var e1, e2 error
	a := gv.Go(func() { e1 = cl.SendOneWay(&Message{Body: gv.BytesN("a", 4)}) })
	b := gv.Go(func() { e2 = cl.SendOneWay(&Message{Body: gv.BytesN("b", 7)}) })
	gv.Settle()
	gv.Assert(a.Done() && b.Done() && e1 == nil && e2 == nil, "sending succeeds")
	gvxWholeFrames(w, 3)
	gv.Cover("concurrent senders")
}

// Verif_C15_all: everything that sends on a connection: messages, requests, pings, heartbeat responses
func Verif_C15_all() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	ctx := gv.NewCtx()
	gv.Go(func() { cl.Wait() })
	hb := &Message{Body: gv.BytesN("heartbeat", 5)}
	hb.Headers.Id = MessageId{Index: 1}
	hb.Headers.Actor = MessageActorTypeTransport
	hb.Headers.Action = "HeartbeatRequest"
	o := gv.NewConn(nil)
	gv.Assume(writeMessageWithFrame(o, hb, frameWriteConfig{FrameHeaderCRC: true}) == nil)
	w.Feed(o.Wire())
	gv.Go(func() { cl.SendOneWay(&Message{Body: gv.BytesN("a", 4)}) })
	c := gv.Go(func() { cl.RequestReply(ctx, &Message{Body: gv.BytesN("c", 2)}) })
	d := gv.Go(func() { cl.Ping(ctx) })
	gv.Settle()
	gv.Assert(!c.Done() && !d.Done(), "requests wait")
	gvxWholeFrames(w, 5)
	gv.Cover("concurrent senders")
}
