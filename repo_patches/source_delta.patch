From 257e180296cefd10b7abdbf13b3f7420389bb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 01/29] fix: reject frames smaller than their frame header and
 message header

---
 transport/frame.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index 83aafc8..a8c18f9 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -61,10 +61,17 @@ func nextFrame(r io.Reader, config frameReadConfig) (*frameheader, []byte, error
 		}
 	}
 
+	if header.FrameLength < uint32(sizeOfFrameheader)+uint32(header.HeaderLength) {
+		return nil, nil, fmt.Errorf("frame length %v too small, message header length %v", header.FrameLength, header.HeaderLength)
+	}
+
 	body := make([]byte, header.FrameLength-uint32(sizeOfFrameheader))
 
 	_, err = io.ReadFull(r, body)
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, nil, err
 	}
 
-- 
2.43.0


From f604751ba492c579f2858730bfa02c29c1e579dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 02/29] fix: report a message header block that ends inside a
 header

---
 transport/messageheaders.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index 0ccdc77..cdefdd0 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -237,17 +237,25 @@ func nextMessageHeader(stream io.Reader) (MessageHeaderIdType, []byte, error) {
 		return MessageHeaderIdTypeInvalid, nil, err
 	}
 
+	// only the end of stream before the id is a clean end
+	unexpected := func(err error) error {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
+		return err
+	}
+
 	var size uint16
 	err = binary.Read(stream, binary.LittleEndian, &size)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, unexpected(err)
 	}
 
 	body := make([]byte, size)
 
 	_, err = io.ReadFull(stream, body)
 	if err != nil {
-		return MessageHeaderIdTypeInvalid, nil, err
+		return MessageHeaderIdTypeInvalid, nil, unexpected(err)
 	}
 
 	return id, body, nil
-- 
2.43.0


From 70770df5f57d0cf000ebb2f349c46c0e2a4ad085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 03/29] fix: refuse message headers and frames that do not fit
 their length fields

---
 transport/frame.go          | 9 +++++++++
 transport/messageheaders.go | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/transport/frame.go b/transport/frame.go
index a8c18f9..a2c94d7 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"hash/crc32"
 	"io"
+	"math"
 
 	"github.com/sigurn/crc8"
 )
@@ -94,6 +95,14 @@ type frameWriteConfig struct {
 
 func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig) error {
 
+	if headerLen > math.MaxUint16 {
+		return fmt.Errorf("message headers too large, %v bytes", headerLen)
+	}
+
+	if uint64(len(msg))+uint64(sizeOfFrameheader) > math.MaxUint32 {
+		return fmt.Errorf("message too large, %v bytes", len(msg))
+	}
+
 	tcpheader := &frameheader{
 		FrameLength:          uint32(sizeOfFrameheader + len(msg)),
 		SecurityProviderMask: uint8(config.SecurityProviderMask),
diff --git a/transport/messageheaders.go b/transport/messageheaders.go
index cdefdd0..b1b5ece 100644
--- a/transport/messageheaders.go
+++ b/transport/messageheaders.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/tg123/phabrik/serialization"
 )
@@ -221,6 +222,10 @@ func writeMessageHeader(w io.Writer, id MessageHeaderIdType, headerbody interfac
 		}
 	}
 
+	if len(b) > math.MaxUint16 {
+		return fmt.Errorf("message header %v too large, %v bytes", id, len(b))
+	}
+
 	if err := binary.Write(w, binary.LittleEndian, uint16(len(b))); err != nil {
 		return err
 	}
-- 
2.43.0


From 770a97d834b8420ff6a94225beaed3b167fe6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 04/29] fix: write a transport frame with a single write

---
 transport/frame.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transport/frame.go b/transport/frame.go
index a2c94d7..2a7cfca 100644
--- a/transport/frame.go
+++ b/transport/frame.go
@@ -125,11 +125,18 @@ func writeFrame(w io.Writer, headerLen int, msg []byte, config frameWriteConfig)
 		tcpheader.FrameBodyCRC = crc32.Checksum(msg, crc32.IEEETable)
 	}
 
-	err = binary.Write(w, binary.LittleEndian, tcpheader)
+	// one write per frame, concurrent senders must not interleave
+	b.Reset()
+	err = binary.Write(&b, binary.LittleEndian, tcpheader)
 	if err != nil {
 		return err
 	}
 
-	_, err = w.Write(msg)
+	_, err = b.Write(msg)
+	if err != nil {
+		return err
+	}
+
+	_, err = w.Write(b.Bytes())
 	return err
 }
-- 
2.43.0


From 560759e8b13d60f778dff7f7dbe07e63d3fa2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 05/29] fix: feeding a reply must not block when the requester
 has given up

---
 transport/requesttable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/requesttable.go b/transport/requesttable.go
index bcc6a47..57125a3 100644
--- a/transport/requesttable.go
+++ b/transport/requesttable.go
@@ -59,7 +59,7 @@ func (r *RequestTable) Put(msg *Message) *PendingRequest {
 	p := &PendingRequest{
 		parent: r,
 		id:     id,
-		ch:     make(chan *ByteArrayMessage),
+		ch:     make(chan *ByteArrayMessage, 1), // Feed must not block when the request is given up
 	}
 	r.table.Store(id, p)
 	return p
-- 
2.43.0


From cb43182ebe6c997c7899af123cd76bb044b3d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 06/29] fix: unexpected heartbeat responses must not panic on
 close or fail a later ping

---
 transport/conn.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/transport/conn.go b/transport/conn.go
index 541b584..1949752 100644
--- a/transport/conn.go
+++ b/transport/conn.go
@@ -37,6 +37,7 @@ type connection struct {
 	requestTable    RequestTable
 	pinglock        sync.Mutex
 	pingCh          chan int64
+	closeCh         chan struct{}
 	msgfac          *messageFactory
 
 	frameRCfg frameReadConfig
@@ -55,6 +56,8 @@ func newConnection(config Config) (*connection, error) {
 	c := &connection{
 		msgfac: mf,
 		pingCh: make(chan int64),
+
+		closeCh: make(chan struct{}),
 	}
 
 	c.frameWCfg.SecurityProviderMask = securityProviderNone
@@ -132,7 +135,7 @@ func (c *connection) Close() error {
 	err := c.conn.Close()
 
 	c.closeOnce.Do(func() {
-		close(c.pingCh)
+		close(c.closeCh)
 		c.requestTable.Close()
 	})
 
@@ -161,14 +164,19 @@ func (c *connection) Ping(ctx context.Context) (time.Duration, error) {
 		return -1, err
 	}
 
-	select {
-	case <-ctx.Done():
-		return -1, ctx.Err()
-	case t := <-c.pingCh:
-		if t != b.HeartbeatTimeTick {
-			return -1, fmt.Errorf("heartbeak time tick out of order")
+	for {
+		select {
+		case <-ctx.Done():
+			return -1, ctx.Err()
+		case <-c.closeCh:
+			return -1, fmt.Errorf("connection closed")
+		case t := <-c.pingCh:
+			if t != b.HeartbeatTimeTick {
+				// response to an earlier ping that was given up
+				continue
+			}
+			return time.Since(time.Unix(0, t)), nil
 		}
-		return time.Since(time.Unix(0, t)), nil
 	}
 }
 
@@ -193,7 +201,10 @@ func (c *connection) handleTransportMessage(msg *ByteArrayMessage) error {
 			return err
 		}
 
-		c.pingCh <- b.HeartbeatTimeTick
+		select {
+		case c.pingCh <- b.HeartbeatTimeTick:
+		case <-c.closeCh:
+		}
 	default:
 	}
 	return nil
-- 
2.43.0


From 26508fcdf2f9a04145156a60d8c1cf0727086c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 07/29] fix: report failed writes during the secure handshake

---
 transport/tls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transport/tls.go b/transport/tls.go
index 7813d81..c5f34ea 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -85,7 +85,7 @@ func (c *fabricSecureConn) Write(b []byte) (n int, err error) {
 			})
 		}
 
-		if writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
+		if err := writeMessageWithFrame(c.rawconn, msg, c.frameWCfg); err != nil {
 			return 0, err
 		}
 
-- 
2.43.0


From 3c93c172a947670a2f90ee50ecc88f3b646f6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 08/29] fix: a handshake message without body is not the end of
 the secured stream

---
 transport/tls.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/transport/tls.go b/transport/tls.go
index c5f34ea..6fd4e08 100644
--- a/transport/tls.go
+++ b/transport/tls.go
@@ -57,13 +57,16 @@ func (c *fabricSecureConn) Read(b []byte) (n int, err error) {
 	if c.rbuf.Len() > 0 {
 		return c.rbuf.Read(b)
 	} else if !c.handshakeComplete() {
-		_, body, err := nextMessageHeaderAndBodyFromFrame(c.rawconn, c.frameRCfg)
-		if err != nil {
-			return 0, err
-		}
-
-		if _, err := c.rbuf.Write(body); err != nil {
-			return 0, err
+		// a message without body carries no bytes, it is not the end of the stream
+		for c.rbuf.Len() == 0 {
+			_, body, err := nextMessageHeaderAndBodyFromFrame(c.rawconn, c.frameRCfg)
+			if err != nil {
+				return 0, err
+			}
+
+			if _, err := c.rbuf.Write(body); err != nil {
+				return 0, err
+			}
 		}
 
 		return c.rbuf.Read(b)
-- 
2.43.0


From 3802a0d71851bb9fe4b802f763f3da11321f1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 09/29] fix: a node id range that wraps contains the ids from
 its begin to the maximum

---
 federation/nodeid_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_range.go b/federation/nodeid_range.go
index 0297462..1c98748 100644
--- a/federation/nodeid_range.go
+++ b/federation/nodeid_range.go
@@ -16,7 +16,7 @@ func (r *NodeIdRange) Contains(id NodeID) bool {
 
 	if s.cmp(e) > 0 {
 
-		if s.cmp(i) <= 0 && u128max.cmp(e) <= 0 {
+		if s.cmp(i) <= 0 && i.cmp(u128max) <= 0 {
 			return true
 		}
 
-- 
2.43.0


From b4af8f7697cfee3f634e08f32e836c48a4088264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:34 +0000
Subject: [PATCH 10/29] fix: route to the closest partner, not to the last one
 looked at

---
 federation/sitenode_parteners.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index d3ae0f4..8030288 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -47,15 +47,17 @@ func (s *SiteNode) closestPartnerNode(id NodeID, filter func(PartnerNodeInfo) bo
 	var cur *PartnerNodeInfo
 	max := u128max
 
-	for _, p := range s.KnownPartnerNodes(filter) {
+	lst := s.KnownPartnerNodes(filter)
+	for i := range lst {
+		p := &lst[i]
 		diff := uint128(p.Instance.Id).sub(uint128(id))
 		if diff == u128zero {
-			return &p
+			return p
 		}
 
-		if diff.cmp(max) < 0 {
+		if cur == nil || diff.cmp(max) < 0 {
 			max = diff
-			cur = &p
+			cur = p
 		}
 	}
 
-- 
2.43.0


From a2d62a68344fc6d521f4028ce4ee48022e813ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 11/29] fix: do not replace a newer partner when updates arrive
 concurrently

---
 federation/sitenode_parteners.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/federation/sitenode_parteners.go b/federation/sitenode_parteners.go
index 8030288..f4b4df9 100644
--- a/federation/sitenode_parteners.go
+++ b/federation/sitenode_parteners.go
@@ -15,15 +15,18 @@ type PartnerNodeInfo struct {
 }
 
 func (s *SiteNode) updatePartnerNode(h *FederationPartnerNodeHeader) {
-	s.partenersRWLock.RLock()
-	old, found := s.parteners[h.Instance.Id]
-	s.partenersRWLock.RUnlock()
+	p := h.PartnerNodeInfo
+
+	// compare and replace under one lock, a newer instance may arrive in between
+	s.partenersRWLock.Lock()
+	old, found := s.parteners[p.Instance.Id]
+	update := !found || old.Instance.InstanceId < p.Instance.InstanceId
+	if update {
+		s.parteners[p.Instance.Id] = &p
+	}
+	s.partenersRWLock.Unlock()
 
-	if !found || old.Instance.InstanceId < h.Instance.InstanceId {
-		p := h.PartnerNodeInfo
-		s.partenersRWLock.Lock()
-		s.parteners[h.Instance.Id] = &p
-		s.partenersRWLock.Unlock()
+	if update {
 		s.onPartnerChanged(p, !found)
 	}
 }
-- 
2.43.0


From 49da77068e0789bfc9a8b1e41b7df770b65d45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 12/29] fix: reject node ids that are negative or longer than
 128 bits

---
 federation/nodeid_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index a0af3bf..f4a23ea 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -17,7 +17,7 @@ func NodeIDFromHex(v string) (NodeID, error) {
 
 	i, ok := new(big.Int).SetString(v, 16)
 
-	if !ok {
+	if !ok || i.Sign() < 0 || i.BitLen() > 128 {
 		return u, fmt.Errorf("fail to convert %v to Uint128", v)
 	}
 
-- 
2.43.0


From 59a68bc3f5d6399f34e8f6fd642b0686420fbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 13/29] fix: a name without instance number gets the plain hash
 as its node id

---
 federation/nodeid_generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation/nodeid_generator.go b/federation/nodeid_generator.go
index f4a23ea..6642b1d 100644
--- a/federation/nodeid_generator.go
+++ b/federation/nodeid_generator.go
@@ -90,6 +90,9 @@ func NodeIDFromV4Generator(v string) (nodeId NodeID) {
 
 	// recalculate hi base on index in name
 	idx := strings.LastIndexFunc(v, func(r rune) bool { return r == '.' || r == '_' })
+	if idx < 0 {
+		return
+	}
 
 	roleName := v[:idx]
 	instance_s := v[idx+1:]
-- 
2.43.0


From a47cd4e7a9b3555f3568128997ad1c4979735880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 14/29] fix: ping every discovered partner, not the last one
 several times

---
 federation/sitenode_boot.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 9c62c98..20ef198 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -54,12 +54,12 @@ func (s *SiteNode) Discover(ctx context.Context) ([]PartnerNodeInfo, error) {
 		wg.Add(len(discovered))
 
 		for _, partner := range discovered {
-			go func(p *PartnerNodeInfo) {
+			go func(p PartnerNodeInfo) {
 				defer wg.Done()
 				if err := s.votePing(p.Instance.Id); err != nil {
 					log.Printf("send vote ping to %v failed %v", p.Address, err)
 				}
-			}(&partner)
+			}(partner)
 		}
 
 		wg.Wait()
-- 
2.43.0


From 0bcd497d32e5f2904ebbfe01aad4240a1784ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:16 +0000
Subject: [PATCH 15/29] fix: read lease frames in a loop and refuse a size
 smaller than the header

---
 lease/frame.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index b167e09..e16ed1e 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -24,27 +24,33 @@ type ltFrameHeader struct {
 var sizeOfLtFrameheader = binary.Size(ltFrameHeader{})
 
 func nextLtFrame(r io.Reader) ([]byte, error) {
-	header := ltFrameHeader{}
-	err := binary.Read(r, binary.LittleEndian, &header)
-	if err != nil {
-		return nil, err
-	}
-
-	switch header.FrameType {
-	case ltFrametypeConnect:
-		// ignore connect message
-		return nextLtFrame(r)
-	case ltFrametypeMessage:
-		body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
-
-		_, err = io.ReadFull(r, body)
+	for {
+		header := ltFrameHeader{}
+		err := binary.Read(r, binary.LittleEndian, &header)
 		if err != nil {
 			return nil, err
 		}
 
-		return body, nil
-	default:
-		return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		switch header.FrameType {
+		case ltFrametypeConnect:
+			// ignore connect message
+			continue
+		case ltFrametypeMessage:
+			if header.FrameSize < uint32(sizeOfLtFrameheader) {
+				return nil, fmt.Errorf("bad frame size %v", header.FrameSize)
+			}
+
+			body := make([]byte, header.FrameSize-uint32(sizeOfLtFrameheader))
+
+			_, err = io.ReadFull(r, body)
+			if err != nil {
+				return nil, err
+			}
+
+			return body, nil
+		default:
+			return nil, fmt.Errorf("unexpected frame type %v", header.FrameType)
+		}
 	}
 }
 
-- 
2.43.0


From 4532470e94dfec695d3aabb21988cd4f8911f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 16/29] fix: write a lease frame with one write

---
 lease/frame.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lease/frame.go b/lease/frame.go
index e16ed1e..2e2e73c 100644
--- a/lease/frame.go
+++ b/lease/frame.go
@@ -1,6 +1,7 @@
 package lease
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -68,15 +69,15 @@ func writeDataWithFrame(w io.Writer, message []byte) error {
 	h.FrameType = ltFrametypeMessage
 	h.FrameSize = uint32(sizeOfLtFrameheader) + uint32(len(message))
 
-	err := binary.Write(w, binary.LittleEndian, &h)
+	var buf bytes.Buffer
+	err := binary.Write(&buf, binary.LittleEndian, &h)
 	if err != nil {
 		return err
 	}
 
-	err = binary.Write(w, binary.LittleEndian, message)
-	if err != nil {
-		return err
-	}
+	buf.Write(message)
 
-	return nil
+	// one write for the whole frame, frames of concurrent writers must not interleave
+	_, err = w.Write(buf.Bytes())
+	return err
 }
-- 
2.43.0


From bd12671c7dcb50d780f47c9d628db86eb94e2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 17/29] fix: check the bounds of the lease listen endpoint

---
 lease/serialize.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lease/serialize.go b/lease/serialize.go
index 9a96110..cbff911 100644
--- a/lease/serialize.go
+++ b/lease/serialize.go
@@ -124,15 +124,15 @@ func marshalRelationshipList(w io.Writer, l []relationshipIdentifier) (uint32, e
 }
 
 func dataAtList(data []byte, desc *listDesc) ([]byte, error) {
-	st := desc.StartOffset
-	ed := desc.StartOffset + desc.Size
+	st := uint64(desc.StartOffset)
+	ed := st + uint64(desc.Size)
 
-	if st >= uint32(len(data)) {
+	if st >= uint64(len(data)) {
 		return nil, fmt.Errorf("bad data start offset")
 	}
 
-	if ed >= uint32(len(data)) {
-		return nil, fmt.Errorf("bad data start offset")
+	if ed > uint64(len(data)) {
+		return nil, fmt.Errorf("bad data end offset")
 	}
 
 	return data[st:ed], nil
@@ -170,6 +170,10 @@ func unmarshal(data []byte) (*Message, error) {
 			return nil, err
 		}
 
+		if len(d) < sizeofUint16+sizeofAddressFamily+sizeofUShort {
+			return nil, fmt.Errorf("bad listen endpoint size")
+		}
+
 		r := bytes.NewReader(d)
 		s := make([]uint16, (header.MessageListenEndpoint.Size-sizeofAddressFamily-sizeofUShort)/sizeofUint16)
 		if err := binary.Read(r, binary.LittleEndian, s); err != nil {
-- 
2.43.0


From 46e4d2b3ad3587411f4b3fc91df8eaeea56f30ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:20 +0000
Subject: [PATCH 18/29] fix: wait for the pong from before the lease ping is
 written

---
 lease/agent.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lease/agent.go b/lease/agent.go
index 63f8078..3acbae4 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -283,6 +283,11 @@ func (s *leaseSession) reconnect() error {
 }
 
 func (s *leaseSession) Ping(ctx context.Context) error {
+	// the pong may arrive as soon as the message is written
+	s.pingLock.RLock()
+	ch := s.pingCh
+	s.pingLock.RUnlock()
+
 	msg := s.createPingMessage()
 
 	data, err := s.parent.marshaller.marshal(msg)
@@ -307,10 +312,6 @@ func (s *leaseSession) Ping(ctx context.Context) error {
 		return err
 	}
 
-	s.pingLock.RLock()
-	ch := s.pingCh
-	s.pingLock.RUnlock()
-
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
-- 
2.43.0


From eae6bd172f318c4f9ddd6064c8513775dad2e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 19/29] fix: end the lease agent's accept loop on a permanent
 error

---
 lease/agent.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 3acbae4..88a7754 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -130,7 +130,11 @@ func (a *Agent) Wait() error {
 		c, err := a.listener.Accept()
 
 		if err != nil {
-			continue
+			if neterr, ok := err.(net.Error); ok && neterr.Temporary() {
+				continue
+			}
+
+			return err
 		}
 
 		go a.handleIncoming(c)
-- 
2.43.0


From 4a61ae28da18a5fafbe3136e85accfe99c68d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 20/29] fix: close the lease session that a new one to the same
 address replaces

---
 lease/agent.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lease/agent.go b/lease/agent.go
index 88a7754..8f74a2d 100644
--- a/lease/agent.go
+++ b/lease/agent.go
@@ -114,6 +114,11 @@ func (a *Agent) Establish(addr string) (Session, error) {
 		return nil, err
 	}
 
+	// a session is found by its address, the one replaced would never be closed or get a pong
+	if old, ok := a.sessions.Load(addr); ok {
+		old.(Session).Close()
+	}
+
 	a.sessions.Store(addr, &s)
 
 	return &s, nil
@@ -245,7 +250,6 @@ func (s *leaseSession) Meta() SessionMetadata {
 // }
 
 func (s *leaseSession) Close() error {
-	s.parent.sessions.Delete(s.addr)
 	s.objLock.Lock()
 	defer s.objLock.Unlock()
 
@@ -253,6 +257,8 @@ func (s *leaseSession) Close() error {
 		return nil
 	}
 
+	s.parent.sessions.Delete(s.addr)
+
 	s.closed = true
 	s.conn.Close()
 	s.boardcastPong() // unlock waiting pings
-- 
2.43.0


From daa819f946f84294db031196402c99a8425e4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 21/29] fix: do not miss a phase change while bootstrapping

---
 federation/sitenode_boot.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/federation/sitenode_boot.go b/federation/sitenode_boot.go
index 20ef198..f003570 100644
--- a/federation/sitenode_boot.go
+++ b/federation/sitenode_boot.go
@@ -10,11 +10,16 @@ import (
 )
 
 func (s *SiteNode) Bootstrap(ctx context.Context) error {
-	if s.phase >= NodePhaseJoining {
-		return nil
-	}
-
 	for {
+		// taken before the pings, the reply may come before all of them are sent
+		s.phaseLock.RLock()
+		phase, changed := s.phase, s.phaseChanged
+		s.phaseLock.RUnlock()
+
+		if phase >= NodePhaseJoining {
+			return nil
+		}
+
 		for _, seed := range s.seedNodes {
 			if err := s.votePing(seed.Id); err != nil {
 				log.Printf("send vote ping to %v failed %v", seed.Address, err)
@@ -22,10 +27,8 @@ func (s *SiteNode) Bootstrap(ctx context.Context) error {
 		}
 
 		select {
-		case <-s.phaseChanged:
-			if s.phase >= NodePhaseJoining {
-				return nil
-			}
+		case <-changed:
+			// check the phase
 		case <-ctx.Done():
 			return ctx.Err()
 		case <-time.After(time.Second * 30): // TODO config
-- 
2.43.0


From 0b10fcf145eec10979836c3d3874c78dde504b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 22/29] fix: end naming requests with their context

---
 naming/naming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 9246dac..6fee21d 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -176,7 +176,7 @@ func (n *NamingClient) onMessage(conn transport.Conn, bam *transport.ByteArrayMe
 }
 
 func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message) (*transport.ByteArrayMessage, error) {
-	reply, err := n.transport.RequestReply(context.TODO(), msg)
+	reply, err := n.transport.RequestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 72c0ef3569f2bea7c34d21272c3e647d2c3e9813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 23/29] fix: report a failed application query instead of
 panicking

---
 naming/naming.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/naming/naming.go b/naming/naming.go
index 6fee21d..e928518 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -363,7 +363,7 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 	param.QueryArgs.QueryArgumentMap[QueryArgumentMapKey{"ApplicationName"}] = filter
 
 	msg.Body = param
-	reply, err := n.transport.RequestReply(ctx, msg)
+	reply, err := n.requestReply(ctx, msg)
 	if err != nil {
 		return nil, err
 	}
@@ -384,5 +384,9 @@ func (n *NamingClient) GetApplicationList(ctx context.Context, filter string) ([
 		return nil, fmt.Errorf("GetApplicationList returns HResult %v", b.ErrorCode)
 	}
 
+	if b.ResultList == nil {
+		return nil, fmt.Errorf("GetApplicationList returns no list")
+	}
+
 	return b.ResultList.List, nil
 }
-- 
2.43.0


From dca6051e8a53aa4bf51bc688742419ae7a126f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 24/29] fix: report the error code of a naming reply

---
 naming/naming.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/naming/naming.go b/naming/naming.go
index e928518..89a5693 100644
--- a/naming/naming.go
+++ b/naming/naming.go
@@ -193,6 +193,10 @@ func (n *NamingClient) requestReply(ctx context.Context, msg *transport.Message)
 		return nil, fmt.Errorf("ClientOperationFailure HResult: %v", b.ErrorCode)
 	}
 
+	if reply.Headers.ErrorCode != transport.FabricErrorCodeSuccess {
+		return nil, fmt.Errorf("reply message contains err header, code: %v", reply.Headers.ErrorCode)
+	}
+
 	return reply, nil
 }
 
-- 
2.43.0


From e04d0780073842aa4a4cf1b4856b7131da47577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 25/29] fix: do not panic on a byte of the other signedness

---
 serialization/unmarshal.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 24f960b..97fc3d9 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -166,22 +166,30 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 	}
 
 	switch rv.Kind() {
-	case reflect.Uint8, reflect.Int8:
-		v, err := s.inner.ReadByte()
+	case reflect.Uint8:
+		if meta != FabricSerializationTypeUChar {
+			return fmt.Errorf("expect uchar got %v", meta)
+		}
 
+		v, err := s.inner.ReadByte()
 		if err != nil {
 			return err
 		}
 
-		switch meta {
-		case FabricSerializationTypeChar:
-			rv.SetInt(int64(v))
-		case FabricSerializationTypeUChar:
-			rv.SetUint(uint64(v))
-		default:
-			return fmt.Errorf("expect char/uchar got %v", meta)
+		rv.SetUint(uint64(v))
+
+	case reflect.Int8:
+		if meta != FabricSerializationTypeChar {
+			return fmt.Errorf("expect char got %v", meta)
 		}
 
+		v, err := s.inner.ReadByte()
+		if err != nil {
+			return err
+		}
+
+		rv.SetInt(int64(v))
+
 	case reflect.Uint16, reflect.Uint32, reflect.Uint64:
 
 		switch meta {
-- 
2.43.0


From 1ac667b85a18864591b2835c4f772f9acbeb5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 26/29] fix: bound string and array lengths by the remaining
 input

---
 serialization/unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 97fc3d9..9db9de7 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -240,6 +240,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		if int64(len)*2 > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		body := make([]uint16, len) // wchar
 
 		err = binary.Read(s.inner, binary.LittleEndian, &body)
@@ -313,6 +317,11 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
+		// every element takes at least the byte of its type
+		if int64(len0) > int64(s.inner.Len()) {
+			return io.ErrUnexpectedEOF
+		}
+
 		objs := reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), len, len)
 
 		for i := 0; i < len; i++ {
-- 
2.43.0


From df5c86d1bb645e11982eb7eb346799dbdc4d638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 27/29] fix: reject objects that end before their fields

---
 serialization/unmarshal.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 9db9de7..1b75630 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -97,7 +97,10 @@ func (s *decodeState) readObjectBegin(meta FabricSerializationType) (int64, erro
 		return -1, err
 	}
 
-	binary.Read(s.inner, binary.LittleEndian, &objectheader)
+	if err := binary.Read(s.inner, binary.LittleEndian, &objectheader); err != nil {
+		return -1, err
+	}
+
 	if objectheader.Flag&headerFlagsContainsTypeInformation == headerFlagsContainsTypeInformation {
 
 		// TODO no obj activator in go, discard type info at the moment
@@ -128,11 +131,20 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 		return nil
 	}
 
-	_, err := s.inner.Seek(endpos, io.SeekStart)
+	pos, err := s.inner.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return err
 	}
 
+	// never read anything again
+	if endpos < pos {
+		return fmt.Errorf("object ends at %v before its fields end at %v", endpos, pos)
+	}
+
+	if _, err := s.inner.Seek(endpos, io.SeekStart); err != nil {
+		return err
+	}
+
 	if err := s.expectTypeMeta(FabricSerializationTypeScopeEnd); err != nil {
 		return err
 	}
@@ -284,6 +296,10 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			}
 
 			if meta == FabricSerializationTypeScopeEnd {
+				// consumed with the object end
+				if err := s.inner.UnreadByte(); err != nil {
+					return err
+				}
 				break
 			}
 
-- 
2.43.0


From 4dabb6f44d00f381f9a0d55ee789b81bf7c2bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 28/29] fix: serialize embedded fields that are not structs

---
 serialization/common.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/serialization/common.go b/serialization/common.go
index e5a6c38..aaebf83 100644
--- a/serialization/common.go
+++ b/serialization/common.go
@@ -66,15 +66,17 @@ func allFields(rv reflect.Value) []reflect.Value {
 		ft := typ.Field(i)
 		fv := rv.Field(i)
 
-		if !fv.CanSet() {
+		if ft.Anonymous && fv.Kind() == reflect.Struct {
+			// also those an unexported struct promotes
+			fields = append(fields, allFields(fv)...)
 			continue
 		}
 
-		if ft.Anonymous {
-			fields = append(fields, allFields(fv)...)
-		} else {
-			fields = append(fields, fv)
+		if !fv.CanSet() {
+			continue
 		}
+
+		fields = append(fields, fv)
 	}
 
 	return fields
-- 
2.43.0


From 72c4d29d4b0eeeec1dbceeb5ba6041d1bb4dc445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 29/29] fix: limit how deep deserialized values nest

---
 serialization/unmarshal.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/serialization/unmarshal.go b/serialization/unmarshal.go
index 1b75630..eeeafd9 100644
--- a/serialization/unmarshal.go
+++ b/serialization/unmarshal.go
@@ -156,7 +156,14 @@ func (s *decodeState) consumeObjectEnd(meta FabricSerializationType, endpos int6
 	return nil
 }
 
-func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) error {
+// maxDepth limits how deep values nest, as the types may be recursive
+const maxDepth = 10000
+
+func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value, depth int) error {
+	if depth > maxDepth {
+		return fmt.Errorf("values nest deeper than %v", maxDepth)
+	}
+
 	if IsEmptyMeta(meta) {
 
 		// bool is alway empty
@@ -273,7 +280,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 			return err
 		}
 
-		if err := s.value(objmeta, reflect.Indirect(ptr)); err != nil {
+		if err := s.value(objmeta, reflect.Indirect(ptr), depth+1); err != nil {
 			return err
 		}
 
@@ -303,7 +310,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				break
 			}
 
-			err = s.value(meta, field)
+			err = s.value(meta, field, depth+1)
 			if err != nil {
 				return err
 			}
@@ -347,7 +354,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 				return err
 			}
 
-			err = s.value(meta, objs.Index(i))
+			err = s.value(meta, objs.Index(i), depth+1)
 
 			if err != nil {
 				return err
@@ -371,7 +378,7 @@ func (s *decodeState) value(meta FabricSerializationType, rv reflect.Value) erro
 		})
 
 		entries := reflect.Indirect(reflect.New(reflect.SliceOf(sliceTyp)))
-		err := s.value(meta, entries)
+		err := s.value(meta, entries, depth+1)
 		if err != nil {
 			return err
 		}
@@ -409,5 +416,5 @@ func Unmarshal(data []byte, v interface{}) error {
 		return err
 	}
 
-	return d.value(meta, rv)
+	return d.value(meta, rv, 1)
 }
-- 
2.43.0

