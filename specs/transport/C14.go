//verif:property C14
//verif:needs transport/C10.go
package transport

import (
	"github.com/tg123/phabrik/serialization"
	gv "github.com/tg123/phabrik/zzgv"
)

const specXA, specXB = MessageHeaderIdType(0x1234), MessageHeaderIdType(0x4321)

func specRawHeader(id MessageHeaderIdType, b []byte) []byte {
	return append([]byte{byte(id), byte(id >> 8), byte(len(b)), byte(len(b) >> 8)}, b...)
}

type specText struct {
	Text string
}

// specLimits: a connection sends m, whose header values and header block are given, or refuses it
func specLimits(m *Message, over bool, block []byte, body []byte) {
	w := gv.NewConn(nil)
	cl, err := Connect(w, ClientConfig{})
	if err != nil {
		gv.Assert(false, "connecting succeeds")
		return
	}
	before := len(w.Writes())
	err = cl.SendOneWay(m)
	over = over || len(block) > 65535 || len(block)+len(body)+12 > 1<<32-1
	out := w.Writes()
	if over {
		gv.Assert(err != nil, "a message that does not fit its length fields is refused")
		gv.Assert(len(out) == before, "and nothing of it is put on the wire")
		return
	}
	gv.Assert(err == nil, "a message that fits is sent")
	gv.Assert(len(out) == before+1, "in one write")
	if len(out) == before+1 {
		gv.AssertEqBytes(out[before], specFrame(append(append([]byte{}, block...), body...), len(block), 0, true, false), "faithfully")
	}
}

func specHeaderOf(id MessageHeaderIdType, v interface{}) []byte {
	b, err := serialization.Marshal(v)
	gv.Assume(err == nil)
	return append([]byte{byte(id), byte(id >> 8), byte(len(b)), byte(len(b) >> 8)}, b...)
}

func specBaseMessage(body []byte) (*Message, []byte) {
	m := &Message{Body: body}
	m.Headers.Id = MessageId{Index: 9}
	m.Headers.Actor = MessageActorTypeGenericTestActor2
	b := specHeaderOf(MessageHeaderIdTypeMessageId, &m.Headers.Id)
	return m, append(b, specHeaderOf(MessageHeaderIdTypeActor, &struct{ Actor MessageActorType }{m.Headers.Actor})...)
}

// Verif_C14_raw: any number of bytes in two raw headers and the body
func Verif_C14_raw() {
	body, a, b := gv.Bytes("body"), gv.Bytes("first header"), gv.Bytes("second header")
	m, block := specBaseMessage(body)
	m.Headers.AppendCustomHeader(specXA, a, b)
	block = append(append(block, specRawHeader(specXA, a)...), specRawHeader(specXA, b)...)
	specLimits(m, len(a) > 65535 || len(b) > 65535, block, body)
	if len(a) > 65535 {
		gv.Cover("header value too large")
	} else if len(b) <= 65535 && len(a)+len(b) > 65535 {
		gv.Cover("header block too large")
	} else if len(b) <= 65535 && len(a)+len(b) < 65000 && len(body) > 1<<32 {
		gv.Cover("frame too large")
	} else {
		gv.Cover("other")
	}
}

// Verif_C14_action: any action text
func Verif_C14_action() {
	act := gv.String("action")
	gv.Assume(len(act) > 0)
	m, block := specBaseMessage(nil)
	m.Headers.Action = act
	b, err := serialization.Marshal(&struct{ Action string }{act})
	gv.Assume(err == nil)
	block = append(block, specRawHeader(MessageHeaderIdTypeAction, b)...)
	specLimits(m, len(b) > 65535, block, nil)
	gv.Cover("action")
}

// Verif_C14_object: any serialized custom header and body
func Verif_C14_object() {
	h, t := gv.String("header text"), gv.String("body text")
	m, block := specBaseMessage(nil)
	m.Headers.SetCustomHeader(specXB, &specText{h})
	m.Body = &specText{t}
	hb, err := serialization.Marshal(&specText{h})
	gv.Assume(err == nil)
	body, err := serialization.Marshal(&specText{t})
	gv.Assume(err == nil)
	block = append(block, specRawHeader(specXB, hb)...)
	specLimits(m, len(hb) > 65535, block, body)
	gv.Cover("objects")
}
