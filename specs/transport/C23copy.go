//verif:property C23
//verif:optional
//verif:needs transport/C23.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C23_error: the pipe returns the error that ended it
func Verif_C23_error() {
	p, err := NewPiper(gv.NewListener(), PiperConfig{Filter: nil, FindUpstream: (&PiperConfig{}).FindUpstream})
	gv.Assert(p == nil && err != nil, "refused")
	p = &Piper{}
	a, b := gv.NewConn(nil), gv.NewConn(nil)
	a.Whole, b.Whole = true, true
	src, err := tapClientConn(a, Config{})
	gv.Assume(err == nil)
	dst, err := tapClientConn(b, Config{})
	gv.Assume(err == nil)
	b.FailFrom = len(b.Writes())
	a.Feed(specInbound(specPlain(1, "", nil)))
	var end error
	t := gv.Go(func() { end = p.pipe(src, dst) })
	gv.Settle()
	gv.Assert(t.Done() && end == gv.ErrInjected, "the pipe ends with the error of the write")
	gv.Assert(a.Closed > 0 && b.Closed > 0, "and closes both connections")
	gv.Cover("write error")
}
