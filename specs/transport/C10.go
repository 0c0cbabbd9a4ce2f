//verif:property C10
package transport

import (
	"bytes"
	"hash/crc32"

	"github.com/sigurn/crc8"
	"github.com/tg123/phabrik/serialization"
	gv "github.com/tg123/phabrik/zzgv"
)

func specMessageId(n string) MessageId {
	var g serialization.GUID
	g.Data1 = gv.U32(n + ".data1")
	g.Data2 = gv.U16(n + ".data2")
	g.Data3 = gv.U16(n + ".data3")
	copy(g.Data4[:], gv.BytesN(n+".data4", 8))
	return MessageId{g, gv.U32(n + ".index")}
}

func specFrameHeader(total uint32, mask, hcrc byte, headerLen uint16, bcrc uint32) []byte {
	return []byte{byte(total), byte(total >> 8), byte(total >> 16), byte(total >> 24), mask, hcrc, byte(headerLen), byte(headerLen >> 8),
		byte(bcrc), byte(bcrc >> 8), byte(bcrc >> 16), byte(bcrc >> 24)}
}

// specFrame is the whole frame for msg
func specFrame(msg []byte, headerLen int, mask byte, headerCRC, bodyCRC bool) []byte {
	total := uint32(12 + len(msg))
	var h byte
	var b uint32
	if headerCRC {
		h = crc8.Checksum(specFrameHeader(total, mask, 0, uint16(headerLen), 0), crc8.MakeTable(crc8.CRC8))
	}
	if bodyCRC {
		b = crc32.ChecksumIEEE(msg)
	}
	return append(specFrameHeader(total, mask, h, uint16(headerLen), b), msg...)
}

// Verif_C10_write: a sent message is the fixed header followed by the message bytes
func Verif_C10_write() {
	var m Message
	m.Headers.Id = specMessageId("id")
	m.Headers.Actor = MessageActorType(gv.I64("actor"))
	body := gv.Bytes("body")
	gv.Assume(len(body) < 1<<32-1<<17)
	m.Body = body
	cfg := frameWriteConfig{
		SecurityProviderMask: securityProvider(gv.U8("mask")),
		FrameHeaderCRC:       gv.Bool("header crc"),
		FrameBodyCRC:         gv.Bool("body crc"),
	}
	var hdr bytes.Buffer
	gv.Assert(m.Headers.writeTo(&hdr) == nil, "the headers are serialized")
	want := specFrame(append(append([]byte{}, hdr.Bytes()...), body...), hdr.Len(), byte(cfg.SecurityProviderMask), cfg.FrameHeaderCRC, cfg.FrameBodyCRC)
	w := gv.NewConn(nil)
	err := writeMessageWithFrame(w, &m, cfg)
	gv.Assert(err == nil, "sending succeeds")
	gv.AssertEqBytes(w.Wire(), want, "frame header and message bytes in the fixed layout")
	gv.Cover("a frame is written")
}

// Verif_C10_read: whatever frame is on the stream, in whatever pieces, exactly it is read
func Verif_C10_read() {
	msg := gv.Bytes("msg")
	tail := gv.Bytes("tail")
	gv.Assume(len(msg) < 1<<32-12)
	hl := gv.U16("header length")
	gv.Assume(int(hl) <= len(msg))
	mask := gv.U8("mask")
	frame := specFrame(msg, int(hl), mask, gv.Bool("header crc present"), gv.Bool("body crc present"))
	s := &gv.Stream{Data: append(append([]byte{}, frame...), tail...)}
	h, body, err := nextFrame(s, frameReadConfig{})
	gv.Assert(err == nil, "a well-formed frame is read")
	if err != nil {
		return
	}
	gv.Assert(h.HeaderLength == hl, "the message-header length is returned")
	gv.Assert(int(h.FrameLength) == len(msg)+12 && h.SecurityProviderMask == mask, "the frame header is returned")
	gv.AssertEqBytes(body, msg, "exactly the message bytes are returned")
	gv.AssertEqBytes(s.Rest(), tail, "nothing beyond the frame is consumed")
	gv.Cover("a frame is read")
}

// Verif_C10_roundtrip: what one end writes the other reads, with any checksum settings that agree
func Verif_C10_roundtrip() {
	var m Message
	m.Headers.Id = specMessageId("id")
	body := gv.Bytes("body")
	gv.Assume(len(body) < 1<<32-1<<17)
	m.Body = body
	gen := frameWriteConfig{SecurityProviderMask: securityProvider(gv.U8("mask")), FrameHeaderCRC: gv.Bool("header crc"), FrameBodyCRC: gv.Bool("body crc")}
	w := gv.NewConn(nil)
	gv.Assert(writeMessageWithFrame(w, &m, gen) == nil, "sending succeeds")
	tail := gv.Bytes("tail")
	s := &gv.Stream{Data: append(w.Wire(), tail...)}
	h, msg, err := nextFrame(s, frameReadConfig{CheckFrameHeaderCRC: gen.FrameHeaderCRC, CheckFrameBodyCRC: gen.FrameBodyCRC})
	gv.Assert(err == nil, "the frame is accepted")
	if err != nil {
		return
	}
	var hdr bytes.Buffer
	gv.Assert(m.Headers.writeTo(&hdr) == nil, "the headers are serialized")
	gv.Assert(int(h.HeaderLength) == hdr.Len(), "the message-header length is returned")
	gv.AssertEqBytes(msg, append(append([]byte{}, hdr.Bytes()...), body...), "exactly the message bytes are returned")
	gv.AssertEqBytes(s.Rest(), tail, "nothing beyond the frame is consumed")
	gv.Cover("round trip")
}
