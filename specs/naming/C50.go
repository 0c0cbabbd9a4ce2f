//verif:property C50
//verif:level proof
//verif:note replies with symbolic text, ids and error codes; lists of up to 2 applications
package naming

import (
	"context"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	gv "github.com/tg123/phabrik/zzgv"
)

// specGateway is the other end of a naming client's connection
type specGateway struct {
	n        *NamingClient
	in, out  *gv.Conn // what the client reads, what the gateway reads
	back     *gv.Conn
	gw       *transport.Client
	requests []*transport.ByteArrayMessage
	seen     int
}

func specNaming() *specGateway {
	gv.MapOrder(false) // the order of headers matters to Verif_C50_orders only
	return specNamingOf()
}

func specNamingOf() *specGateway {
	g := &specGateway{in: gv.NewConn(nil), out: gv.NewConn(nil), back: gv.NewConn(nil)}
	cl, err := transport.Connect(g.in, transport.ClientConfig{})
	gv.Assume(err == nil)
	g.gw, err = transport.Connect(g.out, transport.ClientConfig{MessageCallback: func(_ transport.Conn, m *transport.ByteArrayMessage) {
		g.requests = append(g.requests, m)
	}})
	gv.Assume(err == nil)
	g.n, err = NewNamingClient(cl)
	if err != nil {
		gv.Assert(false, "a naming client can be created")
		gv.Assume(false)
	}
	gv.Go(func() { cl.Wait() })
	gv.Go(func() { g.gw.Wait() })
	g.pass()
	return g
}

// pass moves what was written to the other end
func (g *specGateway) pass() {
	gv.Settle()
	for _, b := range g.in.Writes() {
		g.out.Feed(b)
	}
	for _, b := range g.out.Writes() {
		g.in.Feed(b)
	}
	g.in.Out, g.out.Out = nil, nil
	gv.Settle()
}

// next is the request that the gateway got last
func (g *specGateway) next(action string) *transport.ByteArrayMessage {
	g.pass()
	g.seen++
	if len(g.requests) != g.seen {
		gv.Assert(false, "one request is sent")
		gv.Assume(false)
	}
	m := g.requests[g.seen-1]
	gv.Assert(m.Headers.Action == action && m.Headers.Actor == transport.MessageActorTypeNamingGateway && m.Headers.ExpectsReply, "the request is for the naming gateway")
	return m
}

type specReply struct {
	action string
	code   transport.FabricErrorCode
	body   interface{}
}

func (g *specGateway) reply(to *transport.ByteArrayMessage, r specReply) {
	m := &transport.Message{Body: r.body}
	m.Headers.Actor = transport.MessageActorTypeNamingGateway
	m.Headers.Action = r.action
	m.Headers.ErrorCode = r.code
	m.Headers.RelatesTo = to.Headers.Id
	gv.Assume(g.gw.SendOneWay(m) == nil)
	g.pass()
}

type specPingBody struct {
	GatewayDescription GatewayDescription
}

type specQueryBody struct {
	ResultKind int32
	ResultList *specAppList
	ErrorCode  int32
}

type specAppList struct {
	List []ApplicationQueryResult
}

type specFailure struct {
	ErrorCode int64
}

// specCall is a call of the naming client
type specCall struct {
	kind int
	ctx  *gv.Ctx
	task *gv.Task
	err  error
	gw   *GatewayDescription
	apps []ApplicationQueryResult
	id   uint64
}

const (
	specPing = iota
	specQuery
	specRegister
)

func (g *specGateway) call(kind int) *specCall {
	c := &specCall{kind: kind, ctx: gv.NewCtx()}
	c.task = gv.Go(func() {
		switch kind {
		case specPing:
			c.gw, c.err = g.n.Ping(c.ctx)
		case specQuery:
			c.apps, c.err = g.n.GetApplicationList(c.ctx, "fabric:/app")
		default:
			c.id, c.err = g.n.RegisterFilter(c.ctx, common.Uri{Scheme: "fabric", Path: "app"}, true, false)
		}
	})
	return c
}

func (c *specCall) action() string {
	return []string{"PingRequest", "QueryRequest", "NotificationClientConnectionRequest"}[c.kind]
}

func (c *specCall) failed() {
	gv.Settle()
	gv.Assert(c.task.Done() && c.err != nil, "the call ends with an error")
	gv.Assert(c.gw == nil && c.apps == nil && c.id == 0, "and without a result")
}

// good is a reply to the call
func (c *specCall) good() specReply {
	switch c.kind {
	case specPing:
		return specReply{"PingRequest", 0, &specPingBody{GatewayDescription{Address: "a"}}}
	case specQuery:
		return specReply{"QueryReply", 0, &specQueryBody{ResultKind: 1, ResultList: &specAppList{}}}
	}
	return specReply{"NotificationClientConnectionReply", 0, &specFailure{}}
}

// Verif_C50_ping: the reply to a ping
// Verif_C50_orders: a ping, whatever the order of the headers
func Verif_C50_orders() {
	g := specNamingOf()
	c := g.call(specPing)
	g.reply(g.next("PingRequest"), c.good())
	gv.Assert(c.task.Done() && c.err == nil && c.gw != nil && c.gw.Address == "a", "the gateway's description is returned")
	gv.Cover("any order")
}

func Verif_C50_ping() {
	g := specNaming()
	c := g.call(specPing)
	q := g.next("PingRequest")
	gv.Assert(!c.task.Done(), "a call waits for its reply")
	d := GatewayDescription{Address: gv.Text("address"), NodeName: "n\u00f6de"}
	d.NodeInstance = federation.NodeInstance{Id: federation.NodeID{Hi: gv.U64("hi"), Lo: gv.U64("lo")}, InstanceId: 77}
	gv.Assume(len(d.Address) < 1<<16)
	g.reply(q, specReply{"PingRequest", 0, &specPingBody{d}})
	gv.Assert(c.task.Done() && c.err == nil && c.gw != nil && *c.gw == d, "the gateway's description is returned")
	gv.Cover("ping")
}

// Verif_C50_query: the reply to a query
func Verif_C50_query() {
	g := specNaming()
	c := g.call(specQuery)
	q := g.next("QueryRequest")
	gv.Assert(!c.task.Done(), "a call waits for its reply")
	name := "first"
	n := gv.Choice("applications", 3)
	if n == 1 {
		name = gv.Text("type")
	}
	apps := []ApplicationQueryResult{
		{ApplicationTypeName: name, ApplicationStatus: 1, ApplicationName: common.Uri{Path: "one"}},
		{ApplicationTypeName: "second", HealthState: -5, ApplicationTypeVersion: "v2"},
	}[:n]
	gv.Assume(len(name) < 1<<16)
	g.reply(q, specReply{"QueryReply", 0, &specQueryBody{ResultKind: 1, ResultList: &specAppList{apps}}})
	gv.Assert(c.task.Done() && c.err == nil && len(c.apps) == len(apps), "the gateway's list is returned")
	if len(c.apps) != len(apps) {
		return
	}
	for i := range apps {
		a, b := c.apps[i], apps[i]
		gv.Assert(a.ApplicationTypeName == b.ApplicationTypeName && a.ApplicationStatus == b.ApplicationStatus && a.HealthState == b.HealthState, "every application")
		gv.Assert(a.ApplicationTypeVersion == b.ApplicationTypeVersion && a.ApplicationName.Path == b.ApplicationName.Path, "every application")
	}
	gv.Cover("query")
}

// Verif_C50_failure: failures reported by the gateway
func Verif_C50_failure() {
	g := specNaming()
	c := g.call(gv.Choice("call", 3))
	q := g.next(c.action())
	if c.kind == specRegister && gv.Bool("second request") {
		g.reply(q, c.good())
		q = g.next("RegisterServiceNotificationFilterRequest")
	}
	gv.Assert(!c.task.Done(), "a call waits for its reply")
	r := c.good()
	switch gv.Choice("failure", 4) {
	case 0:
		r.action = "ClientOperationFailure"
		r.body = &specFailure{[]int64{0, 5, -2147017661}[gv.Choice("hresult", 3)]}
		gv.Cover("operation failure")
	case 1:
		r.action = "ClientOperationFailure"
		r.body = []byte{}
	case 2:
		r.action = "ClientOperationFailure"
	default:
		r.code = []transport.FabricErrorCode{1, -2147017661}[gv.Choice("code", 2)]
		gv.Cover("error code")
	}
	g.reply(q, r)
	c.failed()
}

// Verif_C50_body: replies that are not what was asked for
func Verif_C50_body() {
	g := specNaming()
	c := g.call(gv.Choice("call", 2))
	q := g.next(c.action())
	r := c.good()
	whole, err := serialization.Marshal(r.body)
	gv.Assume(err == nil)
	switch gv.Choice("reply", 6) {
	case 0:
		if c.kind != specPing {
			return
		}
		r.action = []string{"", "PingReply", "pingrequest", "PingRequest2"}[gv.Choice("action", 4)]
		gv.Cover("unexpected action")
	case 1:
		r.body = []byte{}
	case 2:
		r.body = whole[:gv.Choice("length", len(whole))]
		gv.Cover("truncated")
	case 3:
		r.body = []byte{0x01, 0x02, 0x03, 0x04}
	case 4:
		if c.kind == specPing {
			return
		}
		r.body = &specQueryBody{ResultKind: 1}
		gv.Cover("no list")
	default:
		if c.kind == specPing {
			return
		}
		r.body = &specQueryBody{ResultKind: 1, ResultList: &specAppList{}, ErrorCode: []int32{1, -2147017661}[gv.Choice("code", 2)]}
		gv.Cover("failed query")
	}
	g.reply(q, r)
	c.failed()
}

// Verif_C50_end: calls without a reply
func Verif_C50_end() {
	g := specNaming()
	c := g.call(gv.Choice("call", 3))
	q := g.next(c.action())
	if c.kind == specRegister && gv.Bool("second request") {
		g.reply(q, c.good())
		g.next("RegisterServiceNotificationFilterRequest")
	}
	gv.Assert(!c.task.Done(), "a call waits for its reply")
	if gv.Bool("context") {
		c.ctx.Cancel()
		c.failed()
		gv.Assert(c.err == context.Canceled, "with the error of the context")
		gv.Cover("cancelled")
	} else {
		g.in.End()
		c.failed()
		gv.Cover("connection lost")
	}
}

// Verif_C50_filter: what a registration asks for
func Verif_C50_filter() {
	g := specNaming()
	prefix, primary := gv.Bool("prefix"), gv.Bool("primary")
	path := gv.Text("path")
	gv.Assume(len(path) < 1<<16)
	var id uint64
	var err error
	t := gv.Go(func() { id, err = g.n.RegisterFilter(gv.NewCtx(), common.Uri{Path: path, Port: 7}, prefix, primary) })
	g.reply(g.next("NotificationClientConnectionRequest"), specReply{"NotificationClientConnectionReply", 0, &specFailure{}})
	q := g.next("RegisterServiceNotificationFilterRequest")
	gv.Assert(!t.Done(), "a call waits for its reply")
	var b RegisterServiceNotificationFilterRequestBody
	if serialization.Unmarshal(q.Body, &b) != nil || b.Filter == nil {
		gv.Assert(false, "the request has a filter")
		return
	}
	g.reply(q, specReply{"RegisterServiceNotificationFilterReply", 0, &specFailure{}})
	gv.Assert(t.Done() && err == nil && id == b.Filter.FilterId, "the id of the filter is returned")
	gv.Assert(b.Filter.Name.Path == path && b.Filter.Name.Port == 7, "the filter has the name")
	gv.Assert(b.Filter.Flags.Flags&1 != 0 == prefix && b.Filter.Flags.Flags&2 != 0 == primary && b.Filter.Flags.Flags < 4, "and the flags")
	gv.Cover("registered")
}

// Verif_C50_ids: registrations one after the other and at once
func Verif_C50_ids() {
	g := specNaming()
	ids := map[uint64]bool{}
	n := 0
	finish := func(c *specCall, q *transport.ByteArrayMessage) {
		g.reply(q, c.good())
		q = g.next("RegisterServiceNotificationFilterRequest")
		r := c.good()
		if n == 0 && gv.Bool("the first one fails") {
			r.code = 5
		}
		n++
		var b RegisterServiceNotificationFilterRequestBody
		gv.Assert(serialization.Unmarshal(q.Body, &b) == nil && b.Filter != nil, "the request has a filter")
		if b.Filter != nil {
			gv.Assert(!ids[b.Filter.FilterId], "every registration has an id of its own")
			ids[b.Filter.FilterId] = true
		}
		g.reply(q, r)
		gv.Assert(c.task.Done() && (c.err == nil) == (r.code == 0), "the registration ends")
	}
	c := g.call(specRegister)
	q := g.next(c.action())
	if gv.Bool("at once") {
		d := g.call(specRegister)
		r := g.next(d.action())
		finish(c, q)
		finish(d, r)
	} else {
		finish(c, q)
		d := g.call(specRegister)
		finish(d, g.next(d.action()))
	}
	gv.Cover("two registrations")
}
