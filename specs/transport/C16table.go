//verif:property C16
//verif:optional
//verif:needs transport/C16.go
package transport

import (
	gv "github.com/tg123/phabrik/zzgv"
)

// specAnyTable makes the table hold an arbitrary number of arbitrary requests
func specAnyTable(t *RequestTable) {
	gv.AnySyncMap(&t.table, func(k interface{}) (interface{}, bool) {
		id := k.(MessageId)
		return &PendingRequest{parent: t, id: id, ch: make(chan *ByteArrayMessage, 1)}, gv.Bool("pending")
	})
}

func specPending(t *RequestTable, id MessageId) (*PendingRequest, bool) {
	v, ok := t.table.Load(id)
	if !ok {
		return nil, false
	}
	return v.(*PendingRequest), true
}

// Verif_C16_any: one message fed to a table with any content
func Verif_C16_any() {
	var t RequestTable
	specAnyTable(&t)
	rel, other := specMessageId("related"), specMessageId("other")
	gv.Assume(rel != other)
	p, pending := specPending(&t, rel)
	q, opending := specPending(&t, other)
	r := specReply("reply", rel)
	took := t.Feed(r)
	gv.Assert(took == (pending && !rel.IsEmpty()), "a message is taken exactly when it relates to a pending request")
	if took {
		_, still := specPending(&t, rel)
		gv.Assert(!still, "the answered request is no longer pending")
		gv.Assert(len(p.ch) == 1 && <-p.ch == r, "the request receives the reply, once")
		gv.Cover("reply")
	}
	q2, still := specPending(&t, other)
	gv.Assert(still == opending && (!still || q2 == q), "other requests stay pending")
	if opending {
		gv.Assert(len(q.ch) == 0, "other requests receive nothing")
		gv.Cover("other request")
	}
}

// Verif_C16_put: a new request is pending and disturbs no other
func Verif_C16_put() {
	var t RequestTable
	specAnyTable(&t)
	id, other := specMessageId("id"), specMessageId("other")
	gv.Assume(id != other)
	q, opending := specPending(&t, other)
	p := t.Put(specRequest(id))
	v, ok := specPending(&t, id)
	gv.Assert(ok && v == p, "the request is pending under its id")
	q2, still := specPending(&t, other)
	gv.Assert(still == opending && (!still || q2 == q), "other requests stay pending")
	p.Close()
	_, ok = specPending(&t, id)
	gv.Assert(!ok, "a closed request is not pending")
	q2, still = specPending(&t, other)
	gv.Assert(still == opending && (!still || q2 == q), "other requests stay pending when one is closed")
	gv.Cover("put and close")
}
