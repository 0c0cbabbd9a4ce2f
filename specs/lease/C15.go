//verif:property C15
//verif:needs lease/C40.go
package lease

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// gvxFrames: every write on the connection is one whole frame
func gvxFrames(w *gv.Conn, n int) {
	out := w.Writes()
	gv.Assert(len(out) == n, "one write per ping")
	for _, b := range out {
		gv.Assert(len(b) >= 12 && specU(b, 4, 4) == uint64(len(b)), "each write is one whole frame")
	}
}

// Verif_C15_lease: pings of one session at once
func Verif_C15_lease() {
	s := specNewAgent(AgentConfig{AppId: gv.StringN("app", 3)})
	e, w := s.session(specEndpoint)
	gvxFrames(w, 0)
	ctx := gv.NewCtx()
	gv.Interleave(1)
	gv.Go(func() { e.Ping(ctx) })
	gv.Go(func() { e.Ping(ctx) })
	gv.Settle()
	gvxFrames(w, 2)
	gv.Cover("two pings")
}

// Verif_C15_leaseFailure: when the write fails the caller is told
func Verif_C15_leaseFailure() {
	s := specNewAgent(AgentConfig{})
	e, w := s.session(specEndpoint)
	w.FailFrom = gv.Choice("writes that succeed", 2)
	ctx := gv.NewCtx()
	var err error
	if w.FailFrom == 1 {
		ctx.Cancel()
		e.Ping(ctx)
		gv.Settle()
	}
	t := gv.Go(func() { err = e.Ping(gv.NewCtx()) })
	gv.Settle()
	gv.Assert(t.Done() && err == gv.ErrInjected, "a ping that cannot be written fails with the error")
	gv.Cover("failed write")
}
