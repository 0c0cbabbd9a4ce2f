//verif:property C11
//verif:needs transport/C10.go
package transport

import (
	"crypto/tls"
	"hash/crc32"

	"github.com/sigurn/crc8"
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C11_accept: any frame at all, with any checksum bytes: accepted exactly when the enabled checks match
func Verif_C11_accept() {
	msg := gv.Bytes("msg")
	gv.Assume(len(msg) < 1<<32-12)
	hl := gv.U16("header length")
	gv.Assume(int(hl) <= len(msg))
	mask, hc, bc := gv.U8("mask"), gv.U8("header crc"), gv.U32("body crc")
	total := uint32(12 + len(msg))
	s := &gv.Stream{Data: append(specFrameHeader(total, mask, hc, hl, bc), msg...)}
	cfg := frameReadConfig{CheckFrameHeaderCRC: gv.Bool("check header"), CheckFrameBodyCRC: gv.Bool("check body")}
	if gv.Bool("right header crc") {
		gv.Assume(hc == crc8.Checksum(specFrameHeader(total, mask, 0, hl, 0), crc8.MakeTable(crc8.CRC8)))
	}
	if gv.Bool("right body crc") {
		gv.Assume(bc == crc32.ChecksumIEEE(msg))
	}
	hok := hc == crc8.Checksum(specFrameHeader(total, mask, 0, hl, 0), crc8.MakeTable(crc8.CRC8))
	bok := bc == crc32.ChecksumIEEE(msg)
	h, body, err := nextFrame(s, cfg)
	if cfg.CheckFrameHeaderCRC && !hok {
		gv.Assert(err != nil, "a wrong header checksum is rejected when headers are checked")
		gv.Cover("bad header checksum")
		return
	}
	if cfg.CheckFrameBodyCRC && !bok {
		gv.Assert(err != nil, "a wrong body checksum is rejected when bodies are checked")
		gv.Cover("bad body checksum")
		return
	}
	gv.Assert(err == nil, "a frame whose enabled checks match is accepted")
	if err == nil {
		gv.Assert(h.HeaderLength == hl, "the message-header length is returned")
		gv.AssertEqBytes(body, msg, "the message bytes are returned")
		gv.Cover("accepted")
	}
}

// Verif_C11_message: the checks guard the messages that are handed out
func Verif_C11_message() {
	msg := gv.Bytes("msg")
	gv.Assume(len(msg) < 1<<32-12)
	mask, hc, bc := gv.U8("mask"), gv.U8("header crc"), gv.U32("body crc")
	total := uint32(12 + len(msg))
	s := &gv.Stream{Data: append(specFrameHeader(total, mask, hc, 0, bc), msg...)}
	cfg := frameReadConfig{CheckFrameHeaderCRC: gv.Bool("check header"), CheckFrameBodyCRC: gv.Bool("check body")}
	hok := hc == crc8.Checksum(specFrameHeader(total, mask, 0, 0, 0), crc8.MakeTable(crc8.CRC8))
	bok := bc == crc32.ChecksumIEEE(msg)
	_, body, err := nextMessageHeaderAndBodyFromFrame(s, cfg)
	good := (!cfg.CheckFrameHeaderCRC || hok) && (!cfg.CheckFrameBodyCRC || bok)
	gv.Assert((err == nil) == good, "a message is handed out exactly when the enabled checks match")
	if err == nil {
		gv.AssertEqBytes(body, msg, "the body is returned")
		gv.Cover("message")
	}
}

func specConfig() Config {
	return Config{
		DisableCheckFrameHeaderCRC:    gv.Bool("disable check header"),
		DisableGenerateFrameHeaderCRC: gv.Bool("disable generate header"),
		CheckFrameBodyCRC:             gv.Bool("check body"),
		GenerateFrameBodyCRC:          gv.Bool("generate body"),
	}
}

// gvxChecks: which checks the connection really makes, observed on frames with wrong checksums
func gvxChecks(c *connection, checkHeader, checkBody, genHeader, genBody bool, mask byte) {
	gv.Assert(c.frameRCfg.CheckFrameHeaderCRC == checkHeader, "header checking as configured")
	gv.Assert(c.frameRCfg.CheckFrameBodyCRC == checkBody, "body checking as configured")
	body := gv.BytesN("body", 3)
	w := gv.NewConn(nil)
	c.conn = w
	gv.Assert(c.SendOneWay(&Message{Headers: MessageHeaders{Id: MessageId{Index: 7}}, Body: body}) == nil, "sending succeeds")
	out := w.Wire()
	if len(out) < 12 {
		gv.Assert(false, "a frame is sent")
		return
	}
	h := byte(0)
	if genHeader {
		h = crc8.Checksum(append(append(append([]byte{}, out[:5]...), 0, out[6], out[7]), 0, 0, 0, 0), crc8.MakeTable(crc8.CRC8))
	}
	b := uint32(0)
	if genBody {
		b = crc32.ChecksumIEEE(out[12:])
	}
	gv.Assert(out[4] == mask, "security provider mask")
	gv.Assert(out[5] == h, "header checksum generated as configured")
	gv.AssertEqBytes(out[8:12], []byte{byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24)}, "body checksum generated as configured")
	// a frame with arbitrary checksum bytes, checked as configured
	hc, bc := gv.U8("in.header crc"), gv.U32("in.body crc")
	in := append(specFrameHeader(15, 0, hc, 0, bc), body...)
	c.conn = gv.NewConn(in)
	_, _, err := c.nextMessageHeaderAndBodyFromFrame()
	good := (!checkHeader || hc == crc8.Checksum(specFrameHeader(15, 0, 0, 0, 0), crc8.MakeTable(crc8.CRC8))) && (!checkBody || bc == crc32.ChecksumIEEE(body))
	gv.Assert((err == nil) == good, "messages are accepted exactly when the configured checks match")
	gv.Cover("checks observed")
}

// Verif_C11_plain: plain connections check headers unless told not to, bodies only when told to
func Verif_C11_plain() {
	cfg := specConfig()
	c, err := newConnection(cfg)
	gv.Assert(err == nil, "a connection is made")
	gvxChecks(c, !cfg.DisableCheckFrameHeaderCRC, cfg.CheckFrameBodyCRC, !cfg.DisableGenerateFrameHeaderCRC, cfg.GenerateFrameBodyCRC, 0)
}

// Verif_C11_connect: the same for a connected client
func Verif_C11_connect() {
	cfg := specConfig()
	cl, err := Connect(gv.NewConn(nil), ClientConfig{Config: cfg})
	gv.Assert(err == nil, "connecting succeeds")
	gvxChecks(cl.connection, !cfg.DisableCheckFrameHeaderCRC, cfg.CheckFrameBodyCRC, !cfg.DisableGenerateFrameHeaderCRC, cfg.GenerateFrameBodyCRC, 0)
}

// Verif_C11_tls: TLS connections do neither
func Verif_C11_tls() {
	cfg := specConfig()
	cfg.TLS = &tls.Config{}
	c, err := newConnection(cfg)
	gv.Assert(err == nil, "a connection is made")
	c.setTls()
	gvxChecks(c, false, false, false, false, 1)
}
