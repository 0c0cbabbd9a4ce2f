PRE='''package transport

import (
%s
)

'''
def demo(imports, body):
    return PRE % "\n".join('\t"%s"'%i for i in imports) + body
SEEDS=[
dict(id='S10-short-read', property='C10', pkg='transport',
 needs='a stream that delivers the frame body in more than one read',
 breaks='nextFrame fills only the first chunk of the body and returns zeros for the rest, leaving bytes of the frame in the stream',
 edits=[('transport/frame.go','_, err = io.ReadFull(r, body)','_, err = io.NewSectionReader(readerAt{r}, 0, int64(len(body))).Read(body)'),
        ('transport/frame.go','var crc8table =','type readerAt struct{ r io.Reader }\n\nfunc (a readerAt) ReadAt(b []byte, _ int64) (int, error) { return a.r.Read(b) }\n\nvar crc8table =')],
 demo=demo(['bytes','testing','testing/iotest'],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	msg := &Message{Body: []byte{1, 2, 3, 4, 5, 6, 7, 8}}
	msg.Headers.Action = "A"
	if err := writeMessageWithFrame(&b, msg, frameWriteConfig{FrameHeaderCRC: true}); err != nil {
		t.Fatal(err)
	}
	h, body, err := nextMessageHeaderAndBodyFromFrame(iotest.HalfReader(&b), frameReadConfig{CheckFrameHeaderCRC: true})
	if err != nil || h.Action != "A" || !bytes.Equal(body, []byte{1, 2, 3, 4, 5, 6, 7, 8}) || b.Len() != 0 {
		t.Fatalf("%v %v %v %v", h, body, err, b.Len())
	}
}
''')),
dict(id='S11-zero-crc-accepted', property='C11', pkg='transport',
 needs='body checking enabled and a frame whose body checksum field is zero while its body has another CRC',
 breaks='a corrupted frame with a zero checksum field is accepted although body checking is on',
 edits=[('transport/frame.go','	if config.CheckFrameBodyCRC {','	if config.CheckFrameBodyCRC && header.FrameBodyCRC != 0 {')],
 demo=demo(['bytes','testing'],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	if err := writeMessageWithFrame(&b, &Message{Body: []byte("hello")}, frameWriteConfig{}); err != nil {
		t.Fatal(err)
	}
	if _, _, err := nextMessageHeaderAndBodyFromFrame(&b, frameReadConfig{CheckFrameBodyCRC: true}); err == nil {
		t.Fatal("frame without valid body checksum accepted")
	}
	b.Reset()
	if err := writeMessageWithFrame(&b, &Message{Body: []byte("hello")}, frameWriteConfig{FrameBodyCRC: true}); err != nil {
		t.Fatal(err)
	}
	if _, _, err := nextMessageHeaderAndBodyFromFrame(&b, frameReadConfig{CheckFrameBodyCRC: true}); err != nil {
		t.Fatal(err)
	}
}
''')),
dict(id='S12-truncated-block', property='C12', pkg='transport',
 needs='a message header block that ends in the middle of a header',
 breaks='the truncated header is dropped silently and a shorter message is returned',
 edits=[('transport/messageheaders.go','		if err == io.EOF {\n			return &headers, nil','		if err == io.EOF || err == io.ErrUnexpectedEOF {\n			return &headers, nil')],
 demo=demo(['bytes','testing'],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	m := &Message{}
	m.Headers.Action = "hello"
	n, data, err := m.marshal()
	if err != nil {
		t.Fatal(err)
	}
	if err := writeFrame(&b, n-1, data[:n-1], frameWriteConfig{}); err != nil {
		t.Fatal(err)
	}
	if h, _, err := nextMessageHeaderAndBodyFromFrame(&b, frameReadConfig{}); err == nil {
		t.Fatalf("truncated header block accepted: %v", h)
	}
}
''')),
dict(id='S13-fault-body', property='C13', pkg='transport',
 needs='a message with the fault-body flag set and error code 0',
 breaks='the fault flag is not sent, so the receiver reads it as unset',
 edits=[('transport/messageheaders.go','if h.ErrorCode != 0 || h.HasFaultBody {','if h.ErrorCode != 0 {')],
 demo=demo(['bytes','testing'],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	m := &Message{}
	m.Headers.HasFaultBody = true
	if err := writeMessageWithFrame(&b, m, frameWriteConfig{}); err != nil {
		t.Fatal(err)
	}
	h, _, err := nextMessageHeaderAndBodyFromFrame(&b, frameReadConfig{})
	if err != nil || !h.HasFaultBody {
		t.Fatal("fault flag lost", err)
	}
}
''')),
dict(id='S16-reply-twice', property='C16', pkg='transport',
 needs='two messages that relate to the same request, the second one after the first was delivered but before the requester woke up',
 breaks='the second reply is taken by the request table as well instead of going to the message callback',
 edits=[('transport/requesttable.go','		pr, ok := r.table.LoadAndDelete(id)\n\n		if ok {','		pr, ok := r.table.Load(id)\n\n		if ok && len(pr.(*PendingRequest).ch) == 0 {')],
 demo=demo(['context','testing'],'''
func TestDemo(t *testing.T) {
	var table RequestTable
	g, _ := newMessageFactory()
	m := g.newMessage()
	pr := table.Put(m)
	reply := &ByteArrayMessage{Body: []byte{1}}
	reply.Headers.RelatesTo = m.Headers.Id
	if !table.Feed(reply) {
		t.Fatal("not taken")
	}
	// the first reply has been delivered: nothing is pending any more, however far the requester is
	got := <-pr.ch
	if got != reply {
		t.Fatal("wrong reply")
	}
	if table.Feed(&ByteArrayMessage{Headers: reply.Headers}) {
		t.Fatal("second reply taken")
	}
	_ = context.Background
}
''')),
dict(id='S17-wait-leaves-entry', property='C17', pkg='transport',
 needs='a pending request whose context ends while it waits',
 breaks='the request stays in the table after its wait ended, so a late reply is swallowed',
 edits=[('transport/requesttable.go','	defer r.Close()\n	select {\n	case <-ctx.Done():\n		return nil, ctx.Err()\n	case reply := <-r.ch:\n','	select {\n	case <-ctx.Done():\n		return nil, ctx.Err()\n	case reply := <-r.ch:\n		r.Close()\n')],
 demo=demo(['context','testing'],'''
func TestDemo(t *testing.T) {
	var table RequestTable
	g, _ := newMessageFactory()
	m := g.newMessage()
	pr := table.Put(m)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if _, err := pr.Wait(ctx); err == nil {
		t.Fatal("no error")
	}
	reply := &ByteArrayMessage{}
	reply.Headers.RelatesTo = m.Headers.Id
	if table.Feed(reply) {
		t.Fatal("the given up request is still in the table")
	}
}
''')),
dict(id='S18-id-overwritten', property='C18', pkg='transport',
 needs="a caller's message id whose GUID part is empty and whose index is not",
 breaks="sending overwrites the caller's id",
 edits=[('transport/message.go','if message.Headers.Id.IsEmpty() {','if message.Headers.Id.Id.IsEmpty() {')],
 demo=demo(['testing'],'''
func TestDemo(t *testing.T) {
	g, _ := newMessageFactory()
	m := &Message{}
	m.Headers.Id.Index = 7
	want := m.Headers.Id
	g.fillMessageId(m)
	if m.Headers.Id != want {
		t.Fatal("id overwritten")
	}
}
''')),
dict(id='S18-lost-increment', property='C18', pkg='transport', flags='-cpu 8',
 needs='two goroutines taking ids from one generator between its load and its store',
 breaks='two messages get the same id',
 edits=[('transport/message.go','	return MessageId{f.messagePrefix, atomic.AddUint32(&f.messageIdx, 1)}','	idx := atomic.LoadUint32(&f.messageIdx) + 1\n	atomic.StoreUint32(&f.messageIdx, idx)\n	return MessageId{f.messagePrefix, idx}')],
 demo=demo(['sync','testing'],'''
func TestDemo(t *testing.T) {
	g, _ := NewMessageIdGenerator()
	const n, k = 8, 100000
	ids := make([][]uint32, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < k; j++ {
				ids[i] = append(ids[i], g.Next().Index)
			}
		}(i)
	}
	wg.Wait()
	seen := map[uint32]bool{}
	for _, l := range ids {
		for _, x := range l {
			if seen[x] {
				t.Fatal("duplicate id", x)
			}
			seen[x] = true
		}
	}
}
''')),
dict(id='S19-transport-reply', property='C19', pkg='transport',
 needs='a transport-actor message whose related id is set',
 breaks='such a message goes to the request table or the message callback instead of the transport handler',
 edits=[('transport/conn.go','		if headers.Actor == MessageActorTypeTransport {','		if headers.Actor == MessageActorTypeTransport && headers.RelatesTo.IsEmpty() {')],
 demo=demo(['testing','time'],'''
func TestDemo(t *testing.T) {
	p1, p2, err := netPipe()
	if err != nil {
		t.Fatal(err)
	}
	defer p1.Close()
	defer p2.Close()
	c := mustTestConnection(t, p1)
	called := make(chan bool, 10)
	c.SetMessageCallback(func(Conn, *ByteArrayMessage) { called <- true })
	go c.Wait()
	m := c.msgfac.newMessage()
	m.Headers.Actor = MessageActorTypeTransport
	m.Headers.Action = "HeartbeatRequest"
	m.Headers.RelatesTo = c.msgfac.Next()
	if err := writeMessageWithFrame(p2, m, c.frameWCfg); err != nil {
		t.Fatal(err)
	}
	p2.SetReadDeadline(time.Now().Add(3 * time.Second))
	h, _, err := nextMessageHeaderAndBodyFromFrame(p2, c.frameRCfg)
	if err != nil || h.Action != "HeartbeatResponse" || len(called) != 0 {
		t.Fatal("not handled as a transport message", err)
	}
}
''')),
dict(id='S20-heartbeat-reencoded', property='C20', pkg='transport',
 needs='a heartbeat request whose body holds more than the tick this side knows (a newer peer)',
 breaks='the response body is re-encoded from the tick alone and differs from the request body',
 edits=[('transport/conn.go','		resp.Body = msg.Body\n','		var b heartbeat\n		if err := serialization.Unmarshal(msg.Body, &b); err != nil {\n			return err\n		}\n		resp.Body = &b\n')],
 demo=demo(['bytes','testing','time','github.com/tg123/phabrik/serialization'],'''
func TestDemo(t *testing.T) {
	p1, p2, err := netPipe()
	if err != nil {
		t.Fatal(err)
	}
	defer p1.Close()
	defer p2.Close()
	c := mustTestConnection(t, p1)
	go c.Wait()
	body, err := serialization.Marshal(&struct {
		Tick  int64
		Extra string
	}{77, "more"})
	if err != nil {
		t.Fatal(err)
	}
	m := c.msgfac.newMessage()
	m.Headers.Actor = MessageActorTypeTransport
	m.Headers.Action = "HeartbeatRequest"
	m.Body = body
	if err := writeMessageWithFrame(p2, m, c.frameWCfg); err != nil {
		t.Fatal(err)
	}
	p2.SetReadDeadline(time.Now().Add(3 * time.Second))
	_, got, err := nextMessageHeaderAndBodyFromFrame(p2, c.frameRCfg)
	if err != nil || !bytes.Equal(got, body) {
		t.Fatalf("%v %x %x", err, got, body)
	}
}
''')),
dict(id='S21-drop-buffered', property='C21', pkg='transport',
 needs='bytes still buffered when the handshake completes (the peer sent its first application record in the last handshake message)',
 breaks='the buffered bytes are skipped: reads go straight to the connection',
 edits=[('transport/tls.go','	if c.rbuf.Len() > 0 {\n','	if c.rbuf.Len() > 0 && !c.handshakeComplete() {\n')],
 demo=demo(['testing','time'],'''
func TestDemo(t *testing.T) {
	p1, p2, err := netPipe()
	if err != nil {
		t.Fatal(err)
	}
	defer p1.Close()
	defer p2.Close()
	mf, _ := newMessageFactory()
	c := &fabricSecureConn{rawconn: p1, mf: mf}
	if err := writeMessageWithFrame(p2, &Message{Body: []byte{1, 2, 3, 4}}, frameWriteConfig{}); err != nil {
		t.Fatal(err)
	}
	b := make([]byte, 2)
	if n, err := c.Read(b); n != 2 || err != nil {
		t.Fatal(n, err)
	}
	c.markHandshakeComplete()
	p1.SetReadDeadline(time.Now().Add(2 * time.Second))
	if n, err := c.Read(b); n != 2 || err != nil || b[0] != 3 {
		t.Fatal(n, err, b)
	}
}
''')),
dict(id='S22-body-crc-over-tls', property='C22', pkg='transport',
 needs='a TLS configuration together with body checksum generation',
 breaks='frames inside TLS carry a body checksum',
 edits=[('transport/conn.go','	c.frameWCfg.FrameHeaderCRC = false\n	c.frameWCfg.FrameBodyCRC = false\n','	c.frameWCfg.FrameHeaderCRC = false\n')],
 demo=demo(['testing'],'''
func TestDemo(t *testing.T) {
	c, err := newConnection(Config{GenerateFrameBodyCRC: true, CheckFrameBodyCRC: true})
	if err != nil {
		t.Fatal(err)
	}
	c.setTls()
	if c.frameWCfg.FrameBodyCRC || c.frameWCfg.FrameHeaderCRC || c.frameRCfg.CheckFrameBodyCRC || c.frameRCfg.CheckFrameHeaderCRC {
		t.Fatalf("%+v %+v", c.frameWCfg, c.frameRCfg)
	}
}
''')),
dict(id='S23-stale-message', property='C23', pkg='transport',
 needs='two or more messages piped in one direction without a filter',
 breaks='the first piped message is sent again in place of every later one',
 edits=[('transport/piper.go','	for {\n		frameheader, framebody, err := nextFrame(src.conn, src.frameRCfg)','	var newmsg *Message\n\n	for {\n		frameheader, framebody, err := nextFrame(src.conn, src.frameRCfg)'),
        ('transport/piper.go','		var newmsg *Message\n\n','')],
 demo=demo(['testing','time'],'''
func TestDemo(t *testing.T) {
	a1, a2, err := netPipe()
	if err != nil {
		t.Fatal(err)
	}
	b1, b2, err := netPipe()
	if err != nil {
		t.Fatal(err)
	}
	defer a1.Close()
	defer b1.Close()
	src, dst := mustTestConnection(t, a2), mustTestConnection(t, b1)
	p := &Piper{}
	go p.copy(src, dst)
	for _, s := range []string{"one", "two", "three"} {
		if err := writeMessageWithFrame(a1, &Message{Body: []byte(s)}, src.frameWCfg); err != nil {
			t.Fatal(err)
		}
		b2.SetReadDeadline(time.Now().Add(3 * time.Second))
		_, body, err := nextMessageHeaderAndBodyFromFrame(b2, dst.frameRCfg)
		if err != nil || string(body) != s {
			t.Fatal(string(body), err)
		}
	}
}
''')),
dict(id='S17-failed-send', property='C17', pkg='transport',
 needs='a request whose send fails',
 breaks='the request stays in the table after RequestReply returned its error',
 edits=[('transport/conn.go','	defer pr.Close()\n\n	if err := c.SendOneWay(message); err != nil {','\n	if err := c.SendOneWay(message); err != nil {')],
 demo=demo(['context','testing'],'''
func TestDemo(t *testing.T) {
	p1, p2, err := netPipe()
	if err != nil {
		t.Fatal(err)
	}
	p2.Close()
	p1.Close()
	c := mustTestConnection(t, p1)
	m := &Message{}
	if _, err := c.RequestReply(context.Background(), m); err == nil {
		t.Fatal("no error")
	}
	reply := &ByteArrayMessage{}
	reply.Headers.RelatesTo = m.Headers.Id
	if c.requestTable.Feed(reply) {
		t.Fatal("the failed request is still in the table")
	}
}
''')),
]
