//verif:property C18
//verif:needs transport/C10.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C18_sequence: successive ids of one generator
func Verif_C18_sequence() {
	g, err := NewMessageIdGenerator()
	if err != nil {
		gv.Assert(false, "a generator is made")
		return
	}
	const n = 6
	var ids [n]MessageId
	for i := range ids {
		ids[i] = g.Next()
		gv.Assert(!ids[i].IsEmpty(), "an id is never empty")
		for j := 0; j < i; j++ {
			gv.Assert(ids[i] != ids[j], "ids differ")
		}
	}
	gv.Cover("ids")
}

// Verif_C18_concurrent: ids drawn at the same time
func Verif_C18_concurrent() {
	gv.Interleave(40)
	g, err := NewMessageIdGenerator()
	if err != nil {
		gv.Assert(false, "a generator is made")
		return
	}
	var a, b, c, d MessageId
	t := gv.Go(func() { a = g.Next(); b = g.Next() })
	u := gv.Go(func() { c = g.Next() })
	d = g.Next()
	gv.Settle()
	gv.Assert(t.Done() && u.Done(), "drawing ids ends")
	gv.Assert(a != b && a != c && a != d && b != c && b != d && c != d, "ids drawn at the same time differ")
	gv.Cover("concurrent ids")
}

// specSentId is the message id in the frame (the first header of the header block)
func specSentId(f []byte) []byte {
	hl := int(f[6]) | int(f[7])<<8
	b := f[12 : 12+hl]
	gv.Assert(len(b) >= 4 && int(b[0])|int(b[1])<<8 == int(MessageHeaderIdTypeMessageId), "the message id comes first")
	return b[4 : 4+int(b[2])|int(b[3])<<8]
}

func specParsedId(f []byte) MessageId {
	h, _, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: f}, frameReadConfig{})
	if err != nil {
		gv.Assert(false, "the sent frame is readable")
		return MessageId{}
	}
	return h.Id
}

// Verif_C18_send: the caller's id is kept, a missing one is made up
func Verif_C18_send() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	id := specMessageId("id")
	m := &Message{}
	m.Headers.Id = id
	gv.Assert(cl.SendOneWay(m) == nil, "sending succeeds")
	out := w.Writes()
	if len(out) != 2 {
		gv.Assert(false, "one frame is sent")
		return
	}
	sent := specParsedId(out[1])
	gv.Assert(!sent.IsEmpty(), "every sent message has an id")
	gv.Assert(sent == m.Headers.Id, "the message has the id that is sent")
	if id.IsEmpty() {
		gv.Assert(sent != specParsedId(out[0]), "a fresh one when it had none")
		n := &Message{}
		gv.Assert(cl.SendOneWay(n) == nil && n.Headers.Id != sent, "different for every message")
		gv.Cover("no id")
	} else {
		gv.Assert(sent == id, "the caller's id is kept")
		gv.Cover("preset id")
	}
}

// Verif_C18_request: a request is registered under the id that is sent
func Verif_C18_request() {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	gv.Go(func() { cl.Wait() })
	m := &Message{}
	if gv.Bool("preset") {
		m.Headers.Id = MessageId{Index: 77}
		m.Headers.Id.Id.Data1 = gv.U32("id")
	}
	var r *ByteArrayMessage
	t := gv.Go(func() { r, err = cl.RequestReply(gv.NewCtx(), m) })
	gv.Settle()
	out := w.Writes()
	if len(out) != 2 {
		gv.Assert(false, "one frame is sent")
		return
	}
	rep := &Message{}
	rep.Headers.Id = MessageId{Index: 1}
	rep.Headers.RelatesTo = specParsedId(out[1])
	rep.Headers.Actor = MessageActorTypeGenericTestActor
	o := gv.NewConn(nil)
	gv.Assume(writeMessageWithFrame(o, rep, frameWriteConfig{FrameHeaderCRC: true}) == nil)
	w.Feed(o.Wire())
	gv.Settle()
	gv.Assert(t.Done() && err == nil && r != nil, "a reply that relates to the id on the wire answers the request")
	gv.Cover("request")
}
