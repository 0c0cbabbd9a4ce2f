//verif:property C40
//verif:level proof
//verif:optional
//verif:needs lease/C40.go
package lease

import (
	"io"

	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C40_write: any data in a frame, and a connect frame
func Verif_C40_write() {
	m := gv.Bytes("data")
	gv.Assume(len(m) <= 1<<32-1-12)
	w := gv.NewConn(nil)
	gv.Assert(writeDataWithFrame(w, m) == nil, "sending succeeds")
	gv.AssertEqBytes(w.Wire(), append(specLtHeader(1, uint32(12+len(m))), m...), "header and data")
	c := gv.NewConn(nil)
	gv.Assert(writeConnectFrame(c) == nil, "sending succeeds")
	gv.AssertEqBytes(c.Wire(), specLtHeader(2, 12), "a connect frame is a header")
	f := gv.NewConn(nil)
	f.FailFrom = 0
	gv.Assert(writeDataWithFrame(f, m) == gv.ErrInjected, "a failed write is an error")
	gv.Cover("written")
}

// specFrames: from an offset on there are connect frames and then a complete message frame
func specFrames(b []byte) *gv.Rec {
	return gv.NewRec("frames", func(r *gv.Rec, q int) bool {
		if q < 0 || q > len(b)-12 {
			return false
		}
		if b[q] == 2 {
			return r.At(q + 12)
		}
		size := int(specU(b, q+4, 4))
		return b[q] == 1 && size >= 12 && size <= len(b)-q
	})
}

// Verif_C40_any: any bytes at all are read as a frame or refused
func Verif_C40_any() {
	b := gv.Bytes("stream")
	ok := specFrames(b)
	gv.Cut()
	gv.Invariant("github.com/tg123/phabrik/lease.nextLtFrame", func(r io.Reader) bool {
		q := r.(*gv.Stream).Pos
		ok.Unfold(q)
		return q >= 0 && q <= len(b) && ok.At(q) == ok.At(0)
	})
	ok.Unfold(0)
	s := &gv.Stream{Data: b}
	got, err := nextLtFrame(s)
	gv.Assert((err == nil) == ok.At(0), "a complete frame after connect frames is read, anything else is an error")
	gv.Assert(err == nil || got == nil, "data or an error")
	gv.Cover("any")
}

// Verif_C40_read: after any number of connect frames exactly the data of the message frame is read, and nothing beyond it
func Verif_C40_read() {
	pre, m, tail := gv.Bytes("connect frames"), gv.Bytes("data"), gv.Bytes("tail")
	gv.Assume(len(m) <= 1<<32-1-12)
	connects := gv.NewRec("connect frames", func(r *gv.Rec, q int) bool {
		return q == len(pre) || q >= 0 && q <= len(pre)-12 && pre[q] == 2 && r.At(q+12)
	})
	gv.Assume(connects.At(0))
	connects.Unfold(0)
	h := specLtHeader(1, uint32(12+len(m)))
	h[1], h[2], h[3] = gv.U8("r1"), gv.U8("r2"), gv.U8("r3")
	specLE(h, uint64(gv.U32("r4")), 8, 4)
	s := &gv.Stream{Data: append(append(append(append([]byte{}, pre...), h...), m...), tail...)}
	gv.Cut()
	gv.Invariant("github.com/tg123/phabrik/lease.nextLtFrame", func(r io.Reader) bool {
		q := r.(*gv.Stream).Pos
		connects.Unfold(q)
		return q >= 0 && q <= len(pre) && connects.At(q)
	})
	got, err := nextLtFrame(s)
	gv.Assert(err == nil, "a message frame is read")
	if err == nil {
		gv.AssertEqBytes(got, m, "exactly its data")
		gv.AssertEqBytes(s.Rest(), tail, "nothing beyond it is consumed")
	}
	gv.Cover("read")
}
