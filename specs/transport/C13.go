//verif:property C13
//verif:note serialization.Marshal and Unmarshal are used by contract (C02): any bytes, 3 to 5 of them per value, that decode to the value they came from; C13_real and C13_action run the real serializer
//verif:needs transport/C10.go
//verif:needs transport/C14.go
package transport

import (
	"fmt"
	"reflect"

	"github.com/tg123/phabrik/serialization"
	gv "github.com/tg123/phabrik/zzgv"
)

// specCodec is what C02 proves of the serializer: Unmarshal of what Marshal returned gives back the value
type specCodec struct {
	vals  []reflect.Value
	bytes [][]byte
}

func gvxCodecContract() *specCodec {
	c := &specCodec{}
	gv.Use("github.com/tg123/phabrik/serialization.Marshal", func(object interface{}) ([]byte, error) {
		v := reflect.ValueOf(object)
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		keep := reflect.New(v.Type()).Elem()
		keep.Set(v)
		b := append([]byte{byte(len(c.vals))}, gv.BytesN("serialized value", 3+len(c.vals)%3)...)
		c.vals = append(c.vals, keep)
		c.bytes = append(c.bytes, b)
		return append([]byte{}, b...), nil
	})
	gv.Use("github.com/tg123/phabrik/serialization.Unmarshal", func(data []byte, object interface{}) error {
		if len(data) == 0 || int(data[0]) >= len(c.vals) {
			gv.Assert(false, "only serialized values are deserialized")
			return fmt.Errorf("unknown")
		}
		k := int(data[0])
		gv.AssertEqBytes(data, c.bytes[k], "a header value arrives unchanged")
		t := reflect.ValueOf(object).Elem()
		gv.Assert(t.Type() == c.vals[k].Type(), "a header is read as what it was written")
		if t.Type() == c.vals[k].Type() {
			t.Set(c.vals[k])
		}
		return nil
	})
	return c
}

func specTransmit(m *Message) (*MessageHeaders, []byte) {
	w := gv.NewConn(nil)
	if err := writeMessageWithFrame(w, m, frameWriteConfig{FrameHeaderCRC: true}); err != nil {
		gv.Assert(false, "sending succeeds")
		return nil, nil
	}
	h, b, err := nextMessageHeaderAndBodyFromFrame(&gv.Stream{Data: w.Wire()}, frameReadConfig{CheckFrameHeaderCRC: true})
	if err != nil || h == nil {
		gv.Assert(false, "receiving succeeds")
		return nil, nil
	}
	return h, b
}

func specSame(h, w *MessageHeaders) {
	gv.Assert(h.Id == w.Id, "same id")
	gv.Assert(h.RelatesTo == w.RelatesTo, "same related id")
	gv.Assert(h.Actor == w.Actor, "same actor")
	gv.Assert(h.Action == w.Action, "same action")
	gv.Assert(h.ExpectsReply == w.ExpectsReply && h.HighPriority == w.HighPriority && h.Idempotent == w.Idempotent, "same flags")
	gv.Assert(h.ErrorCode == w.ErrorCode && h.HasFaultBody == w.HasFaultBody, "same fault")
	gv.Assert(h.RetryCount == w.RetryCount, "same retry count")
}

// Verif_C13_headers: every combination of the built-in headers with any values
func Verif_C13_headers() {
	c := gvxCodecContract()
	m := &Message{}
	h := &m.Headers
	h.Id = specMessageId("id")
	h.Actor = MessageActorType(gv.I64("actor"))
	n := 2
	if gv.Bool("relates") {
		h.RelatesTo = specMessageId("related")
		gv.Assume(!h.RelatesTo.IsEmpty())
		n++
	}
	if gv.Bool("has action") {
		h.Action = gv.String("action")
		gv.Assume(h.Action != "")
		n++
	}
	if gv.Bool("expects reply") {
		h.ExpectsReply = true
		n++
	}
	if gv.Bool("high priority") {
		h.HighPriority = true
		n++
	}
	if gv.Bool("idempotent") {
		h.Idempotent = true
		n++
	}
	if gv.Bool("fault") {
		h.ErrorCode, h.HasFaultBody = FabricErrorCode(gv.I64("error code")), gv.Bool("fault body")
		gv.Assume(h.ErrorCode != 0 || h.HasFaultBody)
		n++
	}
	if gv.Bool("retry") {
		h.RetryCount = gv.I32("retry count")
		gv.Assume(h.RetryCount > 0)
		n++
	}
	body := gv.Bytes("body")
	gv.Assume(len(body) < 1<<31)
	m.Body = body
	want := *h
	got, b := specTransmit(m)
	if got == nil {
		return
	}
	gv.Assert(len(c.vals) <= n, "unset optional headers are not sent")
	specSame(got, &want)
	gv.Assert(len(got.customHeaders) == 0, "no other headers")
	gv.AssertEqBytes(b, body, "exactly the body bytes")
	gv.Cover("headers")
}

const specXR = MessageHeaderIdType(0x2345)

// Verif_C13_custom: custom headers of registered and unregistered types, several per type
func Verif_C13_custom() {
	c := gvxCodecContract()
	RegisterHeaderActivator(specXR, func() interface{} { return &specText{} })
	m := &Message{Body: gv.BytesN("body", 3)}
	m.Headers.Id = specMessageId("id")
	m.Headers.Actor = MessageActorType(gv.I64("actor"))
	t := []string{gv.String("first text"), gv.String("second text")}
	r := [][]byte{gv.Bytes("first raw"), gv.BytesN("second raw", 5)}
	gv.Assume(len(r[0]) < 2000)
	nt, nr := gv.Choice("registered headers", 3), gv.Choice("raw headers", 3)
	if nt == 1 {
		m.Headers.SetCustomHeader(specXR, &specText{t[0]})
	} else if nt == 2 {
		m.Headers.AppendCustomHeader(specXR, &specText{t[0]}, &specText{t[1]})
	}
	if nr == 1 {
		m.Headers.SetCustomHeader(specXA, r[0])
	} else if nr == 2 {
		m.Headers.AppendCustomHeader(specXA, r[0], r[1])
	}
	want := m.Headers
	h, b := specTransmit(m)
	if h == nil {
		return
	}
	gv.Assert(len(c.vals) <= 2+nt, "only what is set is sent")
	specSame(h, &want)
	gs, rs := h.GetCustomHeaders(specXR), h.GetCustomHeaders(specXA)
	gv.Assert(len(gs) == nt && len(rs) == nr, "as many headers of each type")
	for i := range gs {
		x, ok := gs[i].(*specText)
		gv.Assert(ok && x.Text == t[i], "a registered header is decoded, in order")
	}
	for i := range rs {
		x, ok := rs[i].([]byte)
		gv.Assert(ok, "an unregistered header is raw bytes")
		if ok {
			gv.AssertEqBytes(x, r[i], "the same bytes, in order")
		}
	}
	f, ok := h.GetFirstCustomHeader(specXA)
	gv.Assert(ok == (nr > 0), "the first header is found")
	if ok {
		gv.AssertEqBytes(f.([]byte), r[0], "the first header is the first")
	}
	gv.Assert(len(h.customHeaders) == btoi(nt > 0)+btoi(nr > 0), "no other headers")
	gv.AssertEqBytes(b, m.Body.([]byte), "exactly the body bytes")
	gv.Cover("custom headers")
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Verif_C13_real: each header value through the real serializer
func Verif_C13_real() {
	m := &Message{}
	h := &m.Headers
	h.Id.Index = 1
	switch gv.Choice("header", 6) {
	case 0:
		h.Id = specMessageId("id")
	case 1:
		h.Actor = MessageActorType(gv.I64("actor"))
	case 2:
		h.RelatesTo = specMessageId("related")
	case 3:
		h.ErrorCode, h.HasFaultBody = FabricErrorCode(gv.I64("error code")), gv.Bool("fault body")
	case 4:
		h.RetryCount = gv.I32("retry count")
		gv.Assume(h.RetryCount >= 0)
	case 5:
		h.ExpectsReply, h.HighPriority, h.Idempotent = gv.Bool("expects reply"), gv.Bool("high priority"), gv.Bool("idempotent")
	}
	want := *h
	got, b := specTransmit(m)
	if got == nil {
		return
	}
	specSame(got, &want)
	gv.Assert(len(b) == 0, "no body")
	gv.Cover("header")
}

// Verif_C13_action: any action text and any serialized body through the real serializer
func Verif_C13_action() {
	m := &Message{}
	m.Headers.Id.Index = 1
	a, t := gv.Text("action"), gv.Text("body text")
	gv.Assume(len(a) < 30000 && len(t) < 1<<20)
	m.Headers.Action = a
	m.Body = &specText{t}
	h, b := specTransmit(m)
	if h == nil {
		return
	}
	gv.Assert(h.Action == a, "same action")
	var x specText
	gv.Assert(serialization.Unmarshal(b, &x) == nil && x.Text == t, "the body decodes to the value that was sent")
	gv.Cover("text")
}
