//verif:property C19
//verif:optional
//verif:needs transport/C16table.go
//verif:needs transport/C19.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// Verif_C19_step: whatever requests are pending after any history, one message goes to exactly one place
// and leaves every other request pending
func Verif_C19_step() {
	s := specServe()
	specAnyTable(&s.cl.requestTable)
	rel, other := specMessageId("related"), specMessageId("other")
	gv.Assume(rel != other)
	p, pending := specPending(&s.cl.requestTable, rel)
	q, opending := specPending(&s.cl.requestTable, other)
	m := &Message{}
	m.Headers.Id = MessageId{Index: 5}
	m.Headers.Actor = MessageActorType(gv.I64("actor"))
	m.Headers.RelatesTo = rel
	tr := m.Headers.Actor == MessageActorTypeTransport
	s.w.Feed(specInbound(m))
	gv.Settle()
	gv.Assert(!s.served.Done() && s.w.Closed == 0, "the connection goes on")
	_, still := specPending(&s.cl.requestTable, rel)
	q2, ostill := specPending(&s.cl.requestTable, other)
	gv.Assert(ostill == opending && (!ostill || q2 == q && len(q.ch) == 0), "other requests stay pending")
	if tr {
		gv.Assert(len(s.got) == 0 && still == pending, "a transport message goes to the transport only")
		gv.Cover("transport message")
	} else if pending && !rel.IsEmpty() {
		gv.Assert(len(s.got) == 0 && !still && len(p.ch) == 1, "a reply goes to its request only")
		gv.Cover("reply")
	} else {
		gv.Assert(len(s.got) == 1 && still == pending, "any other message goes to the callback, once")
		gv.Cover("callback")
	}
}
