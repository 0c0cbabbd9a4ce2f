//verif:property C42
//verif:level proof
//verif:optional
//verif:needs lease/C42.go
package lease

import (
	"net"
	"strconv"
	"time"

	gv "github.com/tg123/phabrik/zzgv"
)

func specMs(n string) time.Duration { return time.Duration(gv.I32(n)) * time.Millisecond }

func specMessage() *Message {
	m := &Message{}
	m.Type = LeaseMessageType(gv.I32("type"))
	m.LeaseInstance = gv.I64("instance")
	m.RemoteLeaseAgentInstance = gv.I64("remote instance")
	m.Duration = specMs("duration")
	m.Expiration = specMs("expiration")
	m.LeaseSuspendDuration = specMs("suspend")
	m.ArbitrationDuration = specMs("arbitration")
	m.IsTwoWayTermination = gv.Bool("two way")
	return m
}

// Verif_C42_roundtrip: every message without lists, from an agent with any address
func Verif_C42_roundtrip() {
	m := specMessage()
	host, port := gv.Text("host"), gv.U16("port")
	gv.Assume(len(host) < 1<<16)
	c := &marshalContext{AppId: "app", Address: host, Port: port}
	b, err := c.marshal(m)
	gv.Assert(err == nil, "encoding succeeds")
	if err != nil {
		return
	}
	r, err := unmarshal(b)
	gv.Assert(err == nil, "what was encoded is decoded")
	if err != nil {
		return
	}
	gv.Assert(r.Type == m.Type && r.LeaseInstance == m.LeaseInstance && r.RemoteLeaseAgentInstance == m.RemoteLeaseAgentInstance, "type and instances are restored")
	gv.Assert(r.Duration == m.Duration && r.Expiration == m.Expiration, "durations are restored")
	gv.Assert(r.LeaseSuspendDuration == m.LeaseSuspendDuration && r.ArbitrationDuration == m.ArbitrationDuration, "durations are restored")
	gv.Assert(r.IsTwoWayTermination == m.IsTwoWayTermination, "the termination flag is restored")
	gv.Assert(r.MessageListenEndpoint == net.JoinHostPort(host, strconv.Itoa(int(port))), "the listen endpoint is restored")
	gv.Cover("round trip")
}

// Verif_C42_lists: where the lists are in the message
func Verif_C42_lists() {
	m := &Message{}
	app, host := "app", "h\u00f6st"
	lists := []*[]string{
		&m.SubjectEstablishPendingList, &m.SubjectFailedPendingList, &m.MonitorFailedPendingList, &m.SubjectPendingAcceptedList,
		&m.SubjectFailedAcceptedList, &m.MonitorFailedAcceptedList, &m.SubjectPendingRejectedList, &m.SubjectTerminatePendingList, &m.SubjectTerminateAcceptedList,
	}
	at := gv.Choice("list", 9)
	for n := gv.Choice("entries", 3); n > 0; n-- {
		*lists[at] = append(*lists[at], gv.Text([]string{"", "first", "second"}[n]))
	}
	*lists[(at+4)%9] = []string{"other"}
	for _, s := range *lists[at] {
		gv.Assume(len(s) < 1<<20)
	}
	c := &marshalContext{AppId: app, Address: host, Port: gv.U16("port")}
	b, err := c.marshal(m)
	if err != nil || len(b) < 200 {
		gv.Assert(false, "encoding succeeds")
		return
	}
	gv.Assert(b[0] == 2 && b[1] == 1 && specU(b, 4, 4) == 200 && specU(b, 8, 4) == uint64(len(b)), "version and sizes")
	end := 200
	for i := range lists {
		count, l := specDesc(b, 76+12*i)
		gv.Assert(count == uint32(len(*lists[i])), "the descriptor has the number of entries")
		gv.AssertEqBytes(l, specList(app, *lists[i]), "the descriptor delimits the list")
		end += len(l)
	}
	_, ep := specDesc(b, 184)
	gv.AssertEqBytes(ep, append(specPut16(nil, host+"\x00"), 2, 0, byte(c.Port), byte(c.Port>>8)), "the descriptor delimits the listen endpoint")
	gv.Assert(end+len(ep) == len(b), "nothing else is in the message")
	gv.Cover("lists")
}
