//verif:property C42
//verif:level proof
//verif:needs lease/C40.go
//verif:note lists of up to 2 entries with any texts; arbitrary listen addresses
package lease

import (
	"bytes"
	"encoding/binary"
	"time"
	"unicode/utf16"

	gv "github.com/tg123/phabrik/zzgv"
)

func specPut16(b []byte, s string) []byte {
	var buf bytes.Buffer
	binary.Write(&buf, binary.LittleEndian, utf16.Encode([]rune(s)))
	return append(b, buf.Bytes()...)
}

func specSized(b []byte) []byte {
	l := make([]byte, 4)
	specLE(l, uint64(len(b)), 0, 4)
	return append(l, b...)
}

// specList is the encoding of a list of remote agents
func specList(app string, l []string) []byte {
	b := make([]byte, 4)
	specLE(b, uint64(len(l)), 0, 4)
	for _, r := range l {
		b = append(b, specSized(specPut16(nil, app))...)
		b = append(b, specSized(specPut16(nil, r))...)
	}
	return specSized(b)
}

// specDesc checks a descriptor in an encoded message and gives the part that it delimits
func specDesc(b []byte, at int) (count uint32, part []byte) {
	count, off, size := uint32(specU(b, at, 4)), specU(b, at+4, 4), specU(b, at+8, 4)
	if off < 200 || off+size > uint64(len(b)) {
		gv.Assert(false, "descriptors delimit parts of the message, after the header")
		gv.Assume(false)
	}
	return count, b[off : off+size]
}

// Verif_C42_ping: what a ping puts on the wire
func Verif_C42_ping() {
	d := gv.I32("lease duration ms")
	s := specNewAgent(AgentConfig{AppId: "app", LeaseDuration: time.Duration(d) * time.Millisecond})
	e, w := s.session(specEndpoint)
	gv.Go(func() { e.Ping(gv.NewCtx()) })
	gv.Settle()
	b := w.Wire()
	if len(b) < 212 {
		gv.Assert(false, "a message is sent")
		return
	}
	b = b[12:]
	gv.Assert(b[0] == 2 && b[1] == 1 && specU(b, 4, 4) == 200 && specU(b, 8, 4) == uint64(len(b)), "version and sizes")
	gv.Assert(specU(b, 24, 4) == 2 && specU(b, 40, 8) == 0, "a ping request to an instance not known yet")
	gv.Assert(int64(specU(b, 56, 8)) == int64(d), "it expires after the lease duration")
	end := uint64(200)
	for i := 0; i < 9; i++ {
		_, l := specDesc(b, 76+12*i)
		gv.AssertEqBytes(l, specList("app", nil), "empty lists")
		end += uint64(len(l))
	}
	_, ep := specDesc(b, 184)
	gv.AssertEqBytes(ep, append(specPut16(nil, "10.0.0.1\x00"), 2, 0, 80, 0), "the listen endpoint")
	gv.Assert(end+uint64(len(ep)) == uint64(len(b)), "nothing else is in the message")
	gv.Cover("ping")
}
