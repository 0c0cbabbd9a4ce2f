//verif:property C12
//verif:needs transport/C10.go
package transport

import (
	"fmt"
	"io"

	gv "github.com/tg123/phabrik/zzgv"
)

func gvxUnmarshalContract() {
	gv.Use("github.com/tg123/phabrik/serialization.Unmarshal", func(data []byte, object interface{}) error {
		gv.Havoc(object)
		if gv.Bool("header value is malformed") {
			return fmt.Errorf("malformed")
		}
		return nil
	})
}

// specHeaderBlock: the block from an offset on is a sequence of complete headers
func specHeaderBlock(b []byte) *gv.Rec {
	return gv.NewRec("complete headers", func(r *gv.Rec, q int) bool {
		return q == len(b) || q >= 0 && q <= len(b)-4 && int(b[q+2])|int(b[q+3])<<8 <= len(b)-q-4 && r.At(q+4+(int(b[q+2])|int(b[q+3])<<8))
	})
}

// specHeaderLoop: the header parser stands at an offset from which the block is complete exactly if the whole block is
func specHeaderLoop(block []byte, c *gv.Rec) {
	gv.Cut()
	gv.Invariant("github.com/tg123/phabrik/transport.parseFabricMessageHeaders", func(r io.Reader) bool {
		var q int
		switch x := r.(type) {
		case *gv.Stream:
			q = x.Pos
		case interface{ Len() int }:
			q = len(block) - x.Len()
		}
		c.Unfold(q)
		return q >= 0 && q <= len(block) && c.At(q) == c.At(0)
	})
}

// Verif_C12_frame: any first 12 bytes followed by anything
func Verif_C12_frame() {
	fl, mask, hc, hl, bc := gv.U32("frame length"), gv.U8("mask"), gv.U8("header crc"), gv.U16("header length"), gv.U32("body crc")
	rest := gv.Bytes("rest")
	s := &gv.Stream{Data: append(specFrameHeader(fl, mask, hc, hl, bc), rest...)}
	h, body, err := nextFrame(s, frameReadConfig{CheckFrameHeaderCRC: gv.Bool("check header"), CheckFrameBodyCRC: gv.Bool("check body")})
	if fl < 12 {
		gv.Assert(err != nil, "a frame length smaller than the frame header is an error")
		gv.Cover("short frame length")
		return
	}
	if int(fl)-12 > len(rest) {
		gv.Assert(err != nil, "a truncated frame is an error")
		gv.Cover("truncated frame")
		return
	}
	if err == nil {
		gv.Assert(h != nil && int(h.FrameLength) == int(fl), "the frame header is returned")
		gv.AssertEqBytes(body, rest[:int(fl)-12], "the frame body is returned")
		gv.AssertEqBytes(s.Rest(), rest[int(fl)-12:], "only the frame is consumed")
		gv.Cover("frame")
	}
}

// Verif_C12_truncated: a stream that ends within the frame header
func Verif_C12_truncated() {
	n := gv.Choice("n", 12)
	s := &gv.Stream{Data: gv.BytesN("data", n)}
	_, _, err := nextMessageHeaderAndBodyFromFrame(s, frameReadConfig{CheckFrameHeaderCRC: true})
	gv.Assert(err != nil, "a stream ending inside the frame header is an error")
	gv.Assert(n == 0 || err != io.EOF, "and not a clean end of stream")
	gv.Cover("truncated header")
}

// Verif_C12_message: any first 12 bytes followed by anything, read as a message without headers or with a bad header length
func Verif_C12_message() {
	gvxUnmarshalContract()
	fl, hl := gv.U32("frame length"), gv.U16("header length")
	rest := gv.Bytes("rest")
	s := &gv.Stream{Data: append(specFrameHeader(fl, gv.U8("mask"), 0, hl, 0), rest...)}
	gv.Assume(fl < 12 || int(hl) > int(fl)-12 || hl < 4 || int(fl)-12 > len(rest))
	h, body, err := nextMessageHeaderAndBodyFromFrame(s, frameReadConfig{})
	switch {
	case fl < 12:
		gv.Assert(err != nil, "a frame length smaller than the frame header is an error")
	case int(fl)-12 > len(rest):
		gv.Assert(err != nil, "a truncated frame is an error")
	case int(hl) > int(fl)-12:
		gv.Assert(err != nil, "a message-header length larger than the frame is an error")
		gv.Cover("header length beyond the frame")
	case hl > 0:
		gv.Assert(err != nil, "a header block that ends inside a header is an error")
		gv.Cover("header block of less than four bytes")
	default:
		gv.Assert(err == nil && h != nil, "a message without headers is a message")
		gv.AssertEqBytes(body, rest[:int(fl)-12], "its body is the whole frame")
		gv.Cover("no headers")
	}
}

// Verif_C12_block: an arbitrary header block inside a good frame. The parser is used by its contract, which
// Verif_C12_headers proves: an error for a block that is not a sequence of complete headers.
func Verif_C12_block() {
	block := gv.Bytes("header block")
	gv.Assume(len(block) <= 65535)
	body := gv.Bytes("body")
	gv.Assume(len(body) < 1<<31)
	complete := gv.Ghost("the block is a sequence of complete, decodable headers", func() bool { return specHeaderBlock(block).At(0) })
	gv.Use("github.com/tg123/phabrik/transport.parseFabricMessageHeaders", func(r io.Reader) (*MessageHeaders, error) {
		got, err := io.ReadAll(r)
		gv.Assert(err == nil, "the header block is readable")
		gv.AssertEqBytes(got, block, "the parser gets exactly the header block")
		if complete {
			return &MessageHeaders{}, nil
		}
		return nil, fmt.Errorf("malformed")
	})
	s := &gv.Stream{Data: append(append(specFrameHeader(uint32(12+len(block)+len(body)), 0, 0, uint16(len(block)), 0), block...), body...)}
	h, b, err := nextMessageHeaderAndBodyFromFrame(s, frameReadConfig{})
	gv.Assert(complete || err != nil, "a malformed header block is an error")
	if err == nil {
		gv.Assert(h != nil, "headers are returned")
		gv.AssertEqBytes(b, body, "the body is returned")
		gv.Cover("complete header block")
	} else {
		gv.Cover("error")
	}
}

// Verif_C12_headers: the header parser on its own
func Verif_C12_headers() {
	gvxUnmarshalContract()
	block := gv.Bytes("header block")
	complete := specHeaderBlock(block)
	specHeaderLoop(block, complete)
	h, err := parseFabricMessageHeaders(&gv.Stream{Data: block})
	gv.Assert(complete.At(0) || err != nil, "a header block that ends inside a header is an error")
	gv.Assert((err == nil) == (h != nil), "headers or an error")
	gv.Cover("parsed")
}
