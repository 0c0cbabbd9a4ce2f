#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a,b,c in state],
        "mechanism": [dict(name=a, where=b) for a,b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

S="serialization/"; T="transport/"; F="federation/"; L="lease/"
p("C01","Compressed integers round-trip in canonical form",
 "Every non-zero integer of a supported width (16, 32, 64 bits, signed or unsigned) is written as its big-endian 7-bit groups, every byte but the last carrying the 0x80 continuation bit, in the fewest bytes whose leading group still shows the sign in bit 0x40, and zero is written as no bytes at all. Reading those bytes back with the same width, whatever follows them, yields the same integer and consumes exactly the bytes written.",
 ["inputs"],"all 2^16, 2^32 and 2^64 values of each width and sign, followed by any bytes",
 "The tests sample 18 values; carries and sign groups change at every multiple of 7 bits, and nothing checks the bytes themselves or what is consumed.",
 [S+"bytecompress.go"],[("writeCompressed/readCompressed",S+"bytecompress.go")],observe=["Marshal output","Encoder.WriteCompressedUInt32/Decoder.ReadCompressedUInt32"])
p("C02","Serialization round-trips every supported value",
 "For every struct type built from the supported kinds (bool, sized integers, floats, valid UTF-8 strings, pointers, nested and embedded structs, slices, maps, custom-marshaled types) and every value of it whose serialized form is below 4 GiB and nests less than 10,000 values deep, deserializing what serialization produced into a fresh value of that type succeeds and restores all exported fields (those an embedded struct promotes included), with empty and nil slices or maps identified. Serializing never fails on such a value.",
 ["inputs"],"all supported struct types, nesting depths, lengths and field values",
 "The tests use about ten fixed types with one or two values each; the property quantifies over all types and values, including zero elements, nil pointers inside slices and nested maps.",
 [S+"marshal.go",S+"unmarshal.go",S+"common.go",S+"guid.go"],[("encodeState.value",S+"marshal.go"),("decodeState.value",S+"unmarshal.go"),("allFields",S+"common.go")],observe=["Marshal","Unmarshal"])
p("C03","Serialized bytes follow the Service Fabric layout",
 "The bytes produced for a value are exactly those of the Service Fabric binary format: a type byte per value (empty bit 0x40 for zero values, 0x80 for arrays, bools always as empties 0x42/0x72), an object as 0x00, little-endian total size, zero flags and padding, 0x1F, the fields in declaration order with embedded structs flattened, 0x2F, 0x3F; strings as 0xD0-family WString arrays with a compressed UTF-16 count and little-endian code units; slices, pointers, maps, doubles and GUIDs in their prescribed forms. The size field always counts from itself through the closing 0x3F.",
 ["inputs"],"all supported types and values",
 "Tests only compare values after a round trip, so any change made to both directions at once, and any wrong size field that the reader happens to tolerate, goes unseen; no test looks at a byte.",
 [S+"marshal.go",S+"fabricserializationtype.go",S+"common.go",S+"guid.go"],[("objectScopeEnd",S+"marshal.go"),("writeEmpty",S+"marshal.go"),("kindToFabricSerializationType",S+"fabricserializationtype.go")],observe=["Marshal output bytes"])
p("C04","Readers tolerate older and newer object versions",
 "Data written from a struct can be read into any struct whose field list extends it or is a prefix of it, at any nesting level: the common fields are restored, fields the writer did not know keep the value they had in the target, trailing fields the reader does not know are skipped, and whatever follows the nested object is read correctly.",
 ["inputs"],"all pairs of struct types where one field list is a prefix of the other, all values, any following fields",
 "The tests cover two fixed V1/V2 pairs at top level only, with a fresh zero target and nothing following the object.",
 [S+"unmarshal.go"],[("readObjectBegin/consumeObjectEnd",S+"unmarshal.go"),("decodeState.value",S+"unmarshal.go")],observe=["Unmarshal"])
p("C05","Deserializing arbitrary bytes never panics or over-allocates",
 "Deserializing any byte string into any supported struct returns normally, with a value or an error, and never panics. No length field in the data makes it allocate room for more string characters or array elements than the input could still hold, nothing of the input is read twice, and nesting beyond a fixed depth is rejected instead of exhausting the stack.",
 ["inputs"],"all byte strings, all supported target types",
 "No test feeds malformed bytes; the inputs come from an untrusted peer, and a panic in a connection goroutine ends the process.",
 [S+"unmarshal.go",S+"bytecompress.go",S+"guid.go"],[("decodeState.value",S+"unmarshal.go"),("readCompressed",S+"bytecompress.go")],observe=["Unmarshal"])
p("C06","GUID text and wire forms round-trip",
 "Formatting any GUID gives the 36-character lower-case 8-4-4-4-12 hexadecimal form, parsing that text (in either letter case) gives the same GUID back, and text of any other length, dash position or digit alphabet is rejected. A generated GUID always carries version 4 and the RFC 4122 variant, and only the all-zero GUID counts as empty.",
 ["inputs"],"all 2^128 GUIDs, all strings, all outputs of the random source",
 "Nothing tests GUID text at all; the serialization tests use one constant.",
 [S+"guid.go"],[("GUID.String/GUIDFromString/NewGuidV4",S+"guid.go")],observe=["GUID.String","GUIDFromString","NewGuidV4"])
p("C10","Transport frames round-trip with the fixed layout",
 "A frame is written as the 12-byte little-endian header (total length including the header, security provider, header checksum, message-header length, body checksum) followed by the message bytes, and reading it back returns exactly that header length and those bytes and consumes nothing beyond them, however the stream is split into reads. Each checksum is present exactly when its generation is enabled, the CRC-8 over the header with both checksum fields zero, the CRC-32 (IEEE) over the body, and zero otherwise.",
 ["inputs","configurations"],"all messages, header lengths, CRC configurations, following bytes and read chunkings",
 "One 6-byte body is framed in the tests, from a buffer that never returns a short read, and the layout is only checked through the same code.",
 [T+"frame.go"],[("writeFrame/nextFrame",T+"frame.go")],observe=["bytes on the connection"])
p("C11","Corrupted frames are rejected when checking is on",
 "With header checking enabled a frame is accepted only if its CRC-8 matches its header, and with body checking enabled only if its CRC-32 matches its body; with a check disabled that checksum is never the reason for rejection. Plain connections check headers unless told not to and check bodies only when told to, and generate likewise; TLS connections do neither.",
 ["inputs","configurations"],"all received frames and all configurations",
 "The tests flip one fixed byte for each checksum.",
 [T+"frame.go",T+"conn.go"],[("nextFrame",T+"frame.go"),("newConnection/setTls",T+"conn.go")],observe=["nextFrame result","connection configuration"])
p("C12","Malformed inbound messages give errors, not crashes",
 "Whatever bytes arrive on a connection, reading the next message either returns a message or an error and never panics: a frame length smaller than the frame header, or a message-header length larger than the frame, is an error. A truncated frame or a header block that ends in the middle of a header is an error too, never a shorter message.",
 ["inputs","fault_sequences"],"all byte streams and truncation points",
 "Tests only read frames this code wrote; the lengths are attacker controlled.",
 [T+"frame.go",T+"message.go",T+"messageheaders.go",T+"piper.go"],[("nextMessageHeaderAndBodyFromFrame",T+"message.go"),("nextMessageHeader/parseFabricMessageHeaders",T+"messageheaders.go")],observe=["Wait, Piper and handshake error returns"])
p("C13","Message headers and body survive transmission",
 "Sending a message and receiving it yields the same id, related id, actor, action, flags, error code, fault flag and non-negative retry count, the same custom headers per type in the same order (decoded through the registered activator, or as raw bytes when there is none), and exactly the body bytes. Unset optional headers are not sent and read back as unset.",
 ["inputs"],"all header values, all custom headers of other types, all bodies",
 "One fully populated header set is tested, with one custom header; optional-header combinations, several headers of one type and unregistered types are not.",
 [T+"messageheaders.go",T+"message.go"],[("writeTo/parseFabricMessageHeaders",T+"messageheaders.go"),("marshal",T+"message.go")],observe=["received ByteArrayMessage"])
p("C14","Oversized headers or frames are refused, never garbled",
 "When a single header value exceeds 65535 bytes, the whole header block exceeds 65535 bytes, or the message does not fit the 32-bit frame length, sending fails with an error and nothing is put on the wire. Everything within those limits is sent faithfully.",
 ["inputs"],"all message sizes",
 "No test uses a large header; a truncated 16-bit length desynchronises the peer.",
 [T+"messageheaders.go",T+"frame.go",T+"message.go"],[("writeMessageHeader",T+"messageheaders.go"),("writeFrame",T+"frame.go")],observe=["bytes on the connection","SendOneWay error"])
p("C15","Each message reaches the connection in one write",
 "Sending a message on a transport connection, and a ping on a lease session, hands the whole frame to the underlying connection in a single write, so frames of concurrent senders are never interleaved. If that write fails the sender gets the error.",
 ["schedules","inputs","fault_sequences"],"all interleavings of concurrent senders on one connection, all write failures",
 "Tests send from one goroutine at a time, so interleaved halves of frames never show.",
 [T+"frame.go",T+"conn.go",L+"frame.go",L+"agent.go"],[("writeFrame",T+"frame.go"),("writeDataWithFrame",L+"frame.go")],observe=["Write calls on the connection"])
p("C16","A reply goes to exactly the request it relates to",
 "A received message whose related id is that of a pending request is delivered to that request and to nothing else, at most once, leaving other requests untouched; a message with an empty or unknown related id is never taken by the request table. A request waiting for its reply returns exactly that message.",
 ["histories","inputs"],"all sets of pending requests, all message ids, all orders of put, feed and close",
 "Tests keep one request pending at a time.",
 [T+"requesttable.go"],[("Put/Feed/Wait/Close",T+"requesttable.go")],state=[("table","pending requests by message id",T+"requesttable.go")],observe=["RequestReply result","MessageCallback"])
p("C17","Waiting requests end and never block the receiver",
 "A pending request ends with an error when its context ends or the table is closed, it is removed from the table once its wait ends for any reason, and closing requests or the table repeatedly is harmless. Feeding a reply never blocks the receiving loop, even when the requester has already given up or gives up at that moment.",
 ["schedules","histories"],"all interleavings of reply arrival, cancellation and close",
 "The tests cancel without a reply in flight; the late-reply race would stall every later message on the connection.",
 [T+"requesttable.go",T+"conn.go"],[("PendingRequest.Wait/Close",T+"requesttable.go"),("RequestTable.Close/Feed",T+"requesttable.go")],observe=["Feed returning","RequestReply error"])
p("C18","Message ids are unique and never overwritten",
 "Successive ids from one generator differ from each other until its 32-bit counter wraps, also under concurrent use, and are never empty. Sending assigns a fresh id exactly when the message has none and otherwise keeps the caller's id, so a request is registered under the id that is put on the wire.",
 ["histories","inputs","schedules"],"all histories of fewer than 2^32 ids, all preset ids",
 "Tests never compare ids or send a message with a preset id.",
 [T+"message.go",T+"conn.go",F+"sitenode_sender.go"],[("messageFactory.Next/fillMessageId",T+"message.go"),("RequestReply",T+"conn.go")],observe=["Headers.Id sent","pending table key"])
p("C19","Every inbound message is dispatched exactly once",
 "While a connection is being served each received message goes to exactly one place: transport-actor messages to the transport handler only, replies to their pending request only, everything else to the message callback once. A failed connection authentication notice ends the connection and makes every later send fail with its error code; any read error ends the loop, closes the connection and cancels pending requests.",
 ["histories","inputs"],"all sequences of inbound messages and read failures",
 "Tests receive one message per connection and never an authentication failure.",
 [T+"conn.go",T+"server.go"],[("connection.Wait",T+"conn.go"),("Server.onMessage",T+"server.go")],observe=["MessageCallback","Wait result","SendOneWay error"])
p("C20","Heartbeats are echoed and answered pings succeed",
 "A heartbeat request is answered by a heartbeat response carrying exactly the same body, a ping whose own response arrives returns a non-negative duration, and a response for another ping never makes it succeed. A heartbeat response that nobody waits for, before or after the connection is closed, never panics and never holds a goroutine after close.",
 ["inputs","schedules","histories"],"all heartbeat bodies, all orders of responses, cancellations and close",
 "Tests answer one ping in order; unsolicited, late or post-close responses come from the peer.",
 [T+"conn.go"],[("Ping/handleTransportMessage/Close",T+"conn.go")],observe=["Ping result","frames sent"])
p("C21","The secured handshake stream is carried faithfully",
 "Before the handshake is complete each write to the secured connection is sent as one framed security-context message whose body is the written bytes (the first one only also carrying the negotiation header), and reads return, in order and without loss or duplication, the bodies of received frames after any initial bytes; once complete, reads and writes pass straight through after buffered bytes are drained. A failed write is reported as an error.",
 ["inputs","histories","fault_sequences"],"all byte chunks, read sizes, initial buffers and write failures",
 "The single TLS test drives one successful handshake over loopback.",
 [T+"tls.go"],[("fabricSecureConn.Read/Write",T+"tls.go")],observe=["raw connection bytes","Read/Write results"])
p("C22","With TLS configured nothing is sent outside TLS",
 "When a TLS configuration is given, a client or server connection becomes usable only after a successful handshake, a failed handshake makes connecting fail, and every message from the transport-init message on, in both directions, travels over the TLS connection with the SSL security mask and checksums off. Without TLS the given connection is used directly.",
 ["configurations","fault_sequences"],"all configurations and handshake outcomes",
 "The TLS test only sees a successful exchange and cannot tell which connection carried it.",
 [T+"conn.go",T+"tls.go",T+"client.go",T+"server.go"],[("tapAcceptedConn/tapClientConn/setTls",T+"conn.go"),("createTlsConn",T+"tls.go")],observe=["connection the init message is written to"])
p("C23","The piper forwards messages unchanged unless filtered",
 "Each message the piper reads from one side is written to the other side exactly once, in order, with the same headers and body; when a filter is set, the filter's message is sent in its place and a nil result drops exactly that message. The first message, by which the upstream is chosen, is not filtered: without TLS it is passed on as it is, with TLS it opens the secured handshake. Any read or write error ends the pipe with that error.",
 ["inputs","histories"],"all message sequences, filters and failures",
 "The piper has no test.",
 [T+"piper.go"],[("Piper.copy/handle",T+"piper.go")],observe=["bytes on both connections"])
p("C30","Ring arithmetic and range membership are exact",
 "Node ids are 128-bit unsigned ring positions: comparison is their numeric order, subtraction is modulo 2^128, and a range contains an id exactly when the id lies on the inclusive clockwise arc from begin to end, wrapping past the maximum when begin exceeds end.",
 ["inputs"],"all 2^384 triples of ids",
 "The federation package has no test; borrow and wrap-around cases are measure-zero for random samples.",
 [F+"nodeid.go",F+"nodeid_range.go"],[("uint128.sub/cmp",F+"nodeid.go"),("NodeIdRange.Contains",F+"nodeid_range.go")],observe=["NodeIdRange.Contains"])
p("C31","Messages are routed to the closest known partner",
 "Among all known partners accepted by the selection, routing picks one whose clockwise distance (partner id minus target id, modulo 2^128) is minimal, in particular the partner with exactly the target id when it is known, and finds one whenever any is accepted. The local node itself is never chosen as a destination, and sending directly to an id that is not known fails.",
 ["inputs","histories"],"all partner tables of any size, all targets",
 "The federation package has no test; with a single partner every choice rule gives the same answer.",
 [F+"sitenode_parteners.go",F+"sitenode_sender.go"],[("closestPartnerNode",F+"sitenode_parteners.go"),("connectToNode",F+"sitenode_sender.go")],observe=["address dialed","PToP To header"])
p("C32","Partner knowledge never regresses",
 "For each node id the partner table keeps the information with the highest instance id received so far, also when updates arrive concurrently: an update with a lower or equal instance id never replaces a stored entry, a higher one always does, and entries for other ids are untouched. Learning of a routing partner while booting moves the node to the joining phase and wakes the waiters.",
 ["histories","schedules","inputs"],"all sequences and interleavings of partner updates",
 "The federation package has no test; the lost update needs two updates between check and store.",
 [F+"sitenode_parteners.go",F+"sitenode.go"],[("updatePartnerNode",F+"sitenode_parteners.go"),("onPartnerChanged/changePhase",F+"sitenode.go")],state=[("parteners","known partners by node id",F+"sitenode.go")],observe=["KnownPartnerNodes"])
p("C33","Node id text and wire forms round-trip",
 "A node id prints as 32 lower-case hexadecimal digits, high half first, and parsing any hexadecimal text of up to 128 bits gives the id with that value; text that is not hexadecimal, is negative or needs more than 128 bits is rejected. On the wire an id is a 16-byte array of the little-endian halves, high half first, a range is its begin and end ids, and reading restores them while a non-empty value of another type or size is an error.",
 ["inputs"],"all ids, ranges and strings",
 "The federation package has no test.",
 [F+"nodeid.go",F+"nodeid_generator.go",F+"nodeid_range.go"],[("NodeIDFromHex/String",F+"nodeid_generator.go"),("NodeID.Marshal/Unmarshal",F+"nodeid.go"),("NodeIdRange.Marshal/Unmarshal",F+"nodeid_range.go")],observe=["NodeIDFromHex","Marshal/Unmarshal of ids"])
p("C34","Generated node ids are deterministic and collision-free",
 "For every name the V4 generator returns without panicking an id that depends on the name alone; a name without a separator or without a numeric instance gets the plain hash of the whole name. For names of the form role, separator, instance number, the low 64 bits and the low 40 of the high bits are the name's hash and the top 24 bits are an invertible function of the instance number modulo 2^24, so instances of one role whose numbers differ modulo 2^24 never share an id.",
 ["inputs"],"all names and instance numbers",
 "The federation package has no test.",
 [F+"nodeid_generator.go"],[("NodeIDFromV4Generator/pearsonHash",F+"nodeid_generator.go")],observe=["NodeIDFromV4Generator"])
p("C40","Lease frames round-trip and bad frames are errors",
 "A lease message frame is a 12-byte little-endian header (type 1, total size including the header) followed by the data; reading returns exactly that data after skipping any number of connect frames and consumes nothing beyond it. An unknown frame type, a size smaller than the header or a truncated frame is an error, and no input makes the reader panic or recurse without bound.",
 ["inputs","fault_sequences"],"all data, all byte streams, any number of connect frames",
 "The lease package has no test.",
 [L+"frame.go"],[("nextLtFrame/writeDataWithFrame/writeConnectFrame",L+"frame.go")],observe=["bytes on the connection"])
p("C41","Decoding arbitrary lease messages never panics",
 "Decoding any byte string as a lease message returns a message or an error and never panics: an endpoint descriptor whose offset and size do not lie inside the data (including arithmetic overflow), or that is too small for an address, is an error. No field makes it allocate more than the input size.",
 ["inputs"],"all byte strings",
 "The lease package has no test; the data comes from any peer that can connect.",
 [L+"serialize.go"],[("unmarshal/dataAtList",L+"serialize.go")],observe=["handleIncoming"])
p("C42","Lease messages round-trip through the wire format",
 "For every lease message with whole-millisecond 32-bit durations, decoding what was encoded succeeds and restores type, both instances, all durations, the termination flag and the sender's listen endpoint (the encoding agent's host and port). In the encoding the size fields equal the actual sizes and every list descriptor's count, offset and size delimit that list's bytes inside the message.",
 ["inputs"],"all messages, list contents, addresses and ports",
 "The lease package has no test.",
 [L+"serialize.go"],[("marshal/marshalLeaseBody/unmarshal",L+"serialize.go")],observe=["encoded bytes","decoded Message"])
p("C43","A lease ping completes when its response arrives",
 "A ping sends one ping-request frame with the session's instances and lease duration, and returns success once a ping response is received at any time after the request was written, however early. It returns the context's error when the context ends first and is released when the session is closed; a response updates the last-pong time and the remote instance.",
 ["schedules","inputs"],"all arrival times of the response, cancellation and close relative to the ping",
 "The lease package has no test; a response faster than the waiter is a lost wake-up.",
 [L+"agent.go"],[("leaseSession.Ping/onMessage/boardcastPong/Close",L+"agent.go")],observe=["Ping result"])
p("C44","Closing a lease agent ends its accept loop",
 "After the agent is closed, or its listener fails permanently, waiting on the agent returns an error instead of retrying forever, while temporary accept errors are survived. Closing closes every session, is repeatable, and no later dial succeeds.",
 ["histories","fault_sequences"],"all sequences of accepted connections, temporary and permanent accept errors and closes",
 "The lease package has no test.",
 [L+"agent.go"],[("Agent.Wait/Close",L+"agent.go"),("leaseSession.Close",L+"agent.go")],observe=["Agent.Wait result"])
p("C50","Naming calls honour the context and report failures",
 "Every naming call ends with an error when its caller's context ends or the connection is lost, and returns the content of the gateway's reply when it succeeds. It returns an error, never a result or a panic, when the gateway answers with an operation failure or a non-zero error code, when a ping is answered with another action, when the body of a ping or query reply cannot be decoded, and when a query reply has no list. Filter registrations get distinct ids, also when they run concurrently or an earlier one failed, and carry the requested name and flags.",
 ["inputs","fault_sequences","schedules"],"all replies and cancellations",
 "The naming package has no test.",
 ["naming/naming.go"],[("requestReply/Ping/GetApplicationList/RegisterFilter","naming/naming.go")],observe=["NamingClient method results"])
p("C60","Time spans convert within their 100 ns resolution",
 "Converting a duration to a time span and back loses only the remainder below 100 nanoseconds, rounding toward zero, for every duration, and a span that fits a duration converts exactly.",
 ["inputs"],"all 2^64 durations",
 "The common package has no test.",
 ["common/time.go"],[("TimeSpanFromDuration/ToDuration","common/time.go")],observe=["TimeSpan.ToDuration"])
p("C70","Bootstrap and discovery eventually finish",
 "A booting node whose seeds keep answering eventually leaves the booting phase and bootstrapping returns, and discovery terminates.",
 ["schedules","histories"],"all fair schedules",
 "No test; a wake-up lost between the phase check and the wait shows only under particular timing.",
 [F+"sitenode_boot.go"],[("Bootstrap/Discover",F+"sitenode_boot.go")],observe=["Bootstrap return"])
p("C71","No data races on shared connection and node state",
 "Concurrent use of the exported methods of clients, servers, site nodes, lease agents and sessions is free of data races.",
 ["schedules"],"all interleavings of exported methods",
 "The race detector sees only the schedules the tests run.",
 [T+"conn.go",F+"sitenode.go",L+"agent.go"],[("locks and sync.Map",T+"conn.go")],observe=["go test -race"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
