# The single source of properties.jsonl, MANIFEST.json and checks.json.
# Run tools/gen.py after editing.

P = []


def run(fn, bounds, p=None, t=None, time=None, ttime=None, only=None, hang=False, steps=None):
    r = {"fn": fn, "bounds": bounds}
    if p:
        r["params"] = p
    if t:
        r["thorough"] = t
    if time:
        r["time"] = time
    if ttime:
        r["ttime"] = ttime
    if only:
        r["only"] = only
    if hang:
        r["hang_ok"] = True
    if steps:
        r["steps"] = steps
    return r


def prop(id, title, statement, over, text, tests, files, mech, observe, runs, outside, stubs=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, observe=observe, runs=runs, outside=outside, stubs=list(stubs), state=list(state)))


PK = "mqtt/packets/"
PR = PK + "primitives/"
CL = "mqtt/client.go"
MEM = "the reader or writer handed to the codec is an in-memory stream that delivers and accepts bytes as the harness says"
NET = "the network connection is a scripted stand-in: it delivers what the harness feeds, collects what is written, honours deadlines on the virtual clock and fails where told to"
CLK = "time is virtual and advances only when the harness says so or when every goroutine waits"
SCHED = "goroutines, mutexes, channels, select, timers and contexts are modelled by the engine; natively the same schedule is forced by an instrumented runtime"
RNG = "random identifiers come from the generator the harness installs"

# ---------------------------------------------------------------- wire format

prop("C01", "Variable byte integers are exact, minimal and bounded",
     "Writing any number up to 268,435,455 as a variable byte integer gives its shortest standard encoding, reading that back gives the number, and larger numbers are refused instead of written. Reading any bytes consumes exactly the encoding, reports how many bytes that was, never takes more than four, and refuses a value that is cut short or does not end within four bytes. As a property the value is preceded by its identifier, and the length announced beforehand equals the bytes written in both forms.",
     ["inputs"], "all 2^32 numbers, all byte sequences of up to 6 bytes, every property identifier",
     "tests encode a handful of values; lengths change at three points and the overflow lies among 2^32 inputs",
     [PR + "varint.go"], [("ReadFrom, WriteTo, WriteToAsProperty, Length", PR + "varint.go")], ["bytes written", "bytes consumed", "returned count and error"],
     [run("codec.HVarintRoundTrip", "all 32-bit values"), run("codec.HVarintDecode", "all byte strings of 0 to 6 bytes"),
      run("codec.HVarintProperty", "all 32-bit values, all identifiers, a write failing at any byte"), run("codec.HVarintEndless", "any byte with the continuation bit, repeated without end")],
     "nothing: the bounds cover the domain of the type", [MEM])

prop("C02", "Integers, strings and fixed headers have their standard wire form",
     "Every one, two and four byte integer and every string of up to 65,535 bytes is written in its standard form, alone and as a property behind its identifier, with the announced length and the reported count both equal to the bytes written, and reads back as the same value consuming exactly those bytes; longer strings are refused. A value cut short and a write that fails are both reported as errors. A fixed header keeps packet type and flags apart whatever order they are set in, is read from at most five bytes, and survives a round trip.",
     ["inputs"], "all integers; all string contents up to the bound and all string lengths to 2^20; all first bytes and remaining lengths",
     "tests use a few short strings; the boundary at 65,535 and the property forms are not exercised",
     [PR + "byte.go", PR + "uint16.go", PR + "uint32.go", PR + "string.go", PR + "io.go", PK + "packet.go"],
     [("primitive codecs", PR), ("FixedHeader", PK + "packet.go")], ["bytes written", "bytes consumed", "returned count and error"],
     [run("codec.HPrimNumbers", "all values and identifiers; delivery whole, byte by byte, or with the end; cut and failing at every byte"),
      run("codec.HPrimString", "all ASCII contents of 0 to 4 bytes and two-byte UTF-8", t={"maxlen": 7}),
      run("codec.HPrimStringAny", "any length up to 2^20, content unread"), run("codec.HPrimStringLong", "12 lengths from 127 to 65535, first and last byte arbitrary"),
      run("codec.HHeaderBits", "any first byte, 3 setter calls with any values, any remaining length"), run("codec.HHostileHeader", "any 7 bytes")],
     "contents of strings longer than the bound beyond their first and last byte", [MEM])

prop("C03", "CONNECT carries exactly what the program asked for",
     "For every combination of credentials, will, session options and properties the encoded CONNECT is one well-formed MQTT 5.0 packet whose remaining length, property lengths and flags agree with its contents. Every field that is set appears once under its standard property identifier or in its standard place with its value, and nothing that is not set appears. The reported byte count is the number of bytes written.",
     ["inputs", "configurations"], "all values of all fields of CONNECT within the bounds on text length",
     "tests encode two fixed packets; errors in length sums and identifiers show only for particular combinations of optional fields",
     [PK + "connect.go", PR + "map.go"], [("Connect.WriteTo", PK + "connect.go:74")], ["bytes written"],
     [run("codec.HConnect", "any two of 17 optional fields arbitrary, the others all absent or all present; texts up to 1 byte", t={"maxstr": 3}, time=120),
      run("codec.HConnect", "any three of 17 optional fields arbitrary, the others all absent or all present; texts up to 1 byte", p={"width": 3}, only="thorough", ttime=400),
      run("codec.HConnectAuth", "authentication method and data up to 2 bytes, any receive maximum"),
      run("codec.HConnectLarge", "39 lengths around 127/128 and 16383/16384 in 12 fields")],
     "more than three fields (two in the quick tier) arbitrary at once while others are absent; texts longer than the bound other than at the listed lengths; fields that are invalid in MQTT", [MEM])

prop("C04", "PUBLISH carries exactly the message",
     "For every message the encoded PUBLISH is one well-formed packet whose flags, topic, packet identifier, properties and payload are those of the message, each property at most once and none that is not set. Its remaining length equals the bytes that follow for payloads of any size, and a message too long for the protocol or without both topic and topic alias is refused. The reported byte count is the number of bytes written.",
     ["inputs"], "all messages within the bounds on text length; all payload lengths up to half a gigabyte",
     "tests encode one message; length fields grow at sizes no test reaches",
     [PK + "publish.go"], [("Publish.WriteTo", PK + "publish.go:216")], ["bytes written"],
     [run("codec.HPublish", "any two of 8 optional fields arbitrary, the others all absent or all present; topic and payload up to 2 bytes", t={"maxstr": 3}, time=120),
      run("codec.HPublish", "any three of 8 optional fields arbitrary, the others all absent or all present; topic and payload up to 2 bytes", p={"width": 3}, only="thorough", ttime=500),
      run("codec.HPublishLarge", "40 lengths from 0 to 65535 in topic, payload, response topic, correlation data, content type, user property name and value", time=120),
      run("codec.HPublishHuge", "any payload length up to 2^29, content unread")],
     "payload content beyond the bound is carried but not varied; message fields that are invalid in MQTT", [MEM])

prop("C05", "A received PUBLISH decodes to the message the server sent",
     "Every well-formed PUBLISH decodes to the flags, topic, packet identifier, properties and payload in it, consuming exactly the packet and reporting exactly that many bytes, whether or not the fixed header was read beforehand. A message encoded by this library decodes to itself.",
     ["inputs"], "all well-formed PUBLISH packets within the bounds, followed by other data",
     "tests decode one packet; property orders, short payloads and sizes around length boundaries are not sampled",
     [PK + "publish.go"], [("Publish.ReadFrom", PK + "publish.go:93")], ["decoded fields", "bytes consumed", "returned count"],
     [run("codec.HDecodePublish", "any flags, topic of 1 to 2 bytes, up to 2 properties in any order with any values, payload up to 2 bytes", t={"maxstr": 2, "maxpayload": 3}, time=120),
      run("codec.HDecodePublishOwnHeader", "the same with up to 1 property, header read before or by the decoder", t={"props": 2}, time=120),
      run("codec.HDecodePublishLarge", "40 lengths from 0 to 65535 in payload, property and topic", time=120),
      run("codec.HPublishRoundTrip", "any two of 8 optional fields arbitrary", time=120)],
     "more than two properties in one packet beyond the round trip, where up to eight are present", [MEM])

prop("C06", "SUBSCRIBE and UNSUBSCRIBE name exactly the requested filters",
     "The encoded SUBSCRIBE or UNSUBSCRIBE is one well-formed packet with the reserved flags the standard requires, the packet identifier, the properties that are set and the requested topic filters in order, each with its subscription options in SUBSCRIBE. A request without filters is refused and writes nothing. The reported byte count is the number of bytes written.",
     ["inputs"], "all lists of up to two filters (three in the thorough tier) with all options, identifiers and properties",
     "tests encode one request with one filter",
     [PK + "subscribe.go", PK + "unsubscribe.go", PK + "topic.go"], [("Subscribe.WriteTo", PK + "subscribe.go:44"), ("Unsubscribe.WriteTo", PK + "unsubscribe.go:42")], ["bytes written"],
     [run("codec.HSubscribe", "up to 2 filters of three shapes with any bytes, all QoS and retain handling values", t={"topics": 3}, time=120),
      run("codec.HUnsubscribe", "up to 2 filters", t={"topics": 3}), run("codec.HSubLarge", "39 filter and property lengths from 1 to 65535", time=120)],
     "more filters than the bound", [MEM])

prop("C07", "Publish acknowledgements encode and decode exactly",
     "Each of the four publish acknowledgements is encoded as one well-formed packet of its own type with the flags the standard reserves for it, its packet identifier, its reason code and the properties that are set, in any of the short forms the standard allows. Every well-formed acknowledgement, short or long, decodes to the identifier, reason code and properties in it, an absent reason code meaning success, and consumes exactly the packet.",
     ["inputs"], "all identifiers and reason codes, all property contents within the bounds, all three forms",
     "tests decode one form of each; the short forms and flags are where implementations fail",
     [PK + "puback.go"], [("Puback.ReadFrom, WriteTo and the types derived from it", PK + "puback.go")], ["bytes written", "decoded fields", "bytes consumed"],
     [run("codec.HAcks", "four types, any two optional fields arbitrary, texts up to 2 bytes"), run("codec.HAcksLarge", "40 lengths from 0 to 65535"),
      run("codec.HDecodeAcks", "four types, three forms, up to 2 properties", t={"props": 3}, time=120),
      run("codec.HDecodeAcks", "40 lengths from 0 to 65535 of a text, with another property", p={"large": 1}, time=120)],
     "reason strings and user properties with content longer than the bound other than at the listed lengths", [MEM])

prop("C08", "DISCONNECT and AUTH encode and decode exactly",
     "DISCONNECT and AUTH are encoded as one well-formed packet each with their reason code and exactly the properties that are set, under their standard identifiers. Every well-formed DISCONNECT or AUTH, including those without a reason code or without properties, decodes to what is in it and consumes exactly the packet.",
     ["inputs"], "all reason codes and property values within the bounds, all short forms",
     "tests encode and decode one packet of each kind",
     [PK + "disconnect.go", PK + "auth.go"], [("Disconnect", PK + "disconnect.go"), ("Auth", PK + "auth.go")], ["bytes written", "decoded fields", "bytes consumed"],
     [run("codec.HDisconnect", "any reason code, any two of 4 properties arbitrary, texts up to 2 bytes"), run("codec.HAuth", "any reason code, any two of 4 properties arbitrary, texts up to 2 bytes"),
      run("codec.HDiscLarge", "40 lengths from 0 to 65535 in each text"), run("codec.HDecodeDisc", "all forms, up to 2 properties in any order", t={"props": 3}, time=120),
      run("codec.HDecodeDisc", "40 lengths from 0 to 65535 of each text, with another property", p={"large": 1}, time=120)],
     "texts longer than the bound other than at the listed lengths", [MEM])

prop("C09", "CONNACK, SUBACK and UNSUBACK decode to what the server sent",
     "Every well-formed CONNACK decodes to the session flag, reason code and every property in it, and every well-formed SUBACK or UNSUBACK to its packet identifier, properties and the complete list of reason codes in order. Exactly the packet is consumed and exactly that many bytes are reported.",
     ["inputs"], "all well-formed packets of the three kinds within the bounds",
     "tests decode a single packet of each kind; CONNACK alone has 17 properties in any order",
     [PK + "connack.go", PK + "suback.go", PK + "unsuback.go"], [("Connack.ReadFrom", PK + "connack.go:59"), ("Suback.ReadFrom", PK + "suback.go:45"), ("Unsuback.ReadFrom", PK + "unsuback.go:45")],
     ["decoded fields", "bytes consumed", "returned count"],
     [run("codec.HDecodeConnack", "any flags, reason code and up to 2 of 17 properties in any order with any values", t={"maxstr": 2}, time=120),
      run("codec.HDecodeSub", "up to 2 properties, 1 to 3 reason codes", t={"props": 2, "maxcodes": 6}, time=120),
      run("codec.HDecodeConnack", "40 lengths from 0 to 65535 of each text, with another property", p={"large": 1}, time=120),
      run("codec.HDecodeSub", "40 lengths from 0 to 65535 of each text, with another property", p={"large": 1}, time=120),
      run("codec.HDecodeSub", "1 to 65536 reason codes in 40 numbers, up to 1 property", p={"many": 1, "props": 1}, time=120)],
     "more than two properties in one CONNACK", [MEM])

prop("C10", "Fragmented delivery does not change what is decoded",
     "However the network splits a packet, byte by byte, in two parts at any point, or with the end of the stream reported together with the last bytes, every packet a server may send decodes to the same fields and consumes exactly its bytes.",
     ["inputs", "schedules"], "all packets of C05, C07, C08 and C09 with up to one property and every way of splitting them in two, or into single bytes",
     "tests read from complete in-memory buffers",
     [PR + "io.go", PR + "string.go", PK], [("complete reads", PR + "io.go")], ["decoded fields", "bytes consumed"],
     [run("codec.HFragPublish", "every split in two, byte by byte, end with data", t={"three": 1}, time=120), run("codec.HFragConnack", "as before", t={"three": 1}, time=120),
      run("codec.HFragAcks", "as before", t={"three": 1}, time=120), run("codec.HFragOther", "as before", t={"three": 1}, time=120)],
     "three and more parts of uneven size (three parts: thorough tier)", [MEM])

prop("C11", "Malformed packets are refused and never read past their end",
     "Whatever body of whatever announced length a server sends, decoding any kind of packet ends without a crash and never consumes bytes beyond the announced length. A packet is accepted only if all its fields and properties lie within it, it carries only properties its kind may carry, and it is consumed entirely with the right count.",
     ["inputs"], "all bodies up to the bound, all header flags, all ten kinds of packet",
     "tests feed well-formed packets",
     [PK], [("limit, endPacket", PK + "packet.go:152")], ["bytes consumed", "returned error"],
     [run("codec.HHostile" + k, "any body of up to %d bytes" % q, p={"bytes": q}, t={"bytes": t}, time=120) for k, q, t in
      [("Connack", 7, 9), ("Publish", 7, 9), ("Ack", 8, 10), ("Suback", 8, 10), ("Unsuback", 8, 10), ("Disconnect", 7, 9), ("Auth", 7, 9)]],
     "longer bodies; requirements of the standard on values (reserved codes, repeated properties, UTF-8 contents) are not judged", [MEM])

prop("C12", "Cut-short input and failed output are always reported",
     "A packet that ends anywhere before its announced end, by the end of the stream or by an error of the connection, is never taken for a whole one, even if the connection goes on afterwards. When the connection fails at any byte while a packet is written, for good or once, the encoder reports an error and has written nothing out of order before it.",
     ["inputs", "fault_sequences"], "every cut of every packet of C05, C07, C08 and C09 with up to one property; a failure at every byte of every kind of outgoing packet with all fields set",
     "tests use connections that never fail",
     [PK, PR], [("error propagation in ReadFrom and WriteTo", PK)], ["returned error"],
     [run("codec.HWriteError", "seven kinds of packet with every field set, failing at any byte for good or once"), run("codec.HTruncPublish", "every cut, end, error or an error once, reported with or after the last bytes", time=120),
      run("codec.HTruncPublishOwnHeader", "every cut", time=120), run("codec.HTruncConnack", "every cut, end, error or an error once, reported with or after the last bytes", time=120), run("codec.HTruncAcks", "every cut, end, error or an error once, reported with or after the last bytes", time=120), run("codec.HTruncOther", "every cut, end, error or an error once, reported with or after the last bytes", time=120)],
     "two failures in one packet", [MEM])

prop("C13", "Subscription options are what the program set, in any order",
     "After any sequence of calls that set filter, QoS, no-local, retain-as-published and retain-handling, the subscription that is sent has the filter and the options last set, with the reserved bits zero. The no-local option is never set on a shared subscription, whichever of filter and option is set first.",
     ["inputs", "histories"], "all sequences of setter calls up to the bound with all values",
     "tests set each option once on a fresh topic",
     [PK + "topic.go"], [("Topic setters", PK + "topic.go")], ["options byte of the encoded SUBSCRIBE"],
     [run("codec.HTopicOptions", "3 setter calls in any order with any values, six filters", t={"setters": 5}, time=120)],
     "whether no-local comes back when a shared filter is replaced by a plain one; filters other than the six", [MEM])

prop("C14", "Message payloads read and write like a stream",
     "Reading a message yields its payload in order in pieces of any size and then the end, and after a reset yields it again from the start, without changing it. Writing to a message places bytes in order into what is left of its payload, writes as much as fits, and reports an error when not all of it fits.",
     ["inputs", "histories"], "payloads up to the bound, every sequence of buffer sizes up to the bound",
     "tests do one read and one write",
     [PK + "publish.go"], [("Read, Write, Reset", PK + "publish.go:59")], ["bytes read", "payload", "returned count and error"],
     [run("codec.HPublishReader", "payloads of up to 4 bytes, buffers of 1 to 3 bytes", t={"maxpayload": 7}), run("codec.HPublishWriter", "payloads of up to 4 bytes, three writes of 1 to 2 bytes", t={"maxpayload": 6})],
     "larger payloads", [MEM])

AG = {"again": 1, "width": 1}
prop("C15", "Encoding leaves a packet as it was, ready to be encoded again",
     "A packet can be encoded any number of times: after an encoding that went through or one that failed partway, the same packet encodes to what it encodes to when fresh, and after its fields have been changed it encodes to what it holds then. This goes for every kind of packet a client sends.",
     ["inputs", "histories", "fault_sequences"], "all field values within the bounds of C03, C04 and C06 to C08 with one field arbitrary at a time; an earlier encoding that is complete or fails at one of several bytes",
     "tests encode each packet once; what an encoder leaves behind in the packet shows only the second time",
     [PK], [("WriteTo of each packet", PK)], ["bytes written by the second encoding"],
     [run("codec.HConnect", "one of 17 optional fields arbitrary, the others all absent or all present, after an encoding that is complete or fails at byte 0, 3 ... 21", p=AG, t={"again": 1, "width": 2}, time=120),
      run("codec.HPublish", "one of 8 optional fields arbitrary, as before", p=AG, t={"again": 1, "width": 2}, time=120),
      run("codec.HSubscribe", "up to 2 filters, as before", p=AG, time=120), run("codec.HUnsubscribe", "up to 2 filters, as before", p=AG, time=120),
      run("codec.HAcks", "four types, as before", p=AG, t={"again": 1, "width": 2}, time=120), run("codec.HDisconnect", "as before", p=AG, t={"again": 1, "width": 2}, time=120),
      run("codec.HAuth", "as before", p=AG, t={"again": 1, "width": 2}, time=120),
      run("codec.HReuse", "six kinds, one field arbitrary, fields changed after an encoding that is complete or fails at byte 4, 8, 12 or 16", p={"width": 1}, time=120)],
     "more than two encodings; encoding the same packet from two goroutines at once", [MEM])

# --------------------------------------------------------------------- client

prop("M01", "Topic filters match exactly the topics the standard says",
     "A topic filter matches a topic name exactly when MQTT 5.0 section 4.7 says so, for literal levels, the single-level wildcard, the multi-level wildcard including the parent level, empty levels, and topics that begin with a dollar sign; a shared subscription matches what the filter behind its share name matches. Matching any two strings, valid or not, ends without a crash.",
     ["inputs"], "all valid filters and topic names up to the bound, any bytes; all string pairs up to a smaller bound",
     "tests check a table of examples", [CL], [("matchTopic", CL)], ["which channels receive a message"],
     [run("client.HMatch", "all valid filters and topics of 1 to 5 bytes", p={"len": 5}, t={"len": 6}, time=120, ttime=800), run("client.HMatchLevels", "filters and topics of up to 4 levels, each empty, any byte or a wildcard", p={"levels": 4}, t={"levels": 5}, time=150, ttime=800), run("client.HMatchAny", "any two strings of 0 to 4 bytes", p={"len": 4}, t={"len": 5}, time=120),
      run("client.HMatchLong", "topics of 12 bytes and filters equal to them but for one byte, one '+' level or a '#' tail", t={"long": 20}),
      run("client.HShared", "groups of 1 to 2 bytes, filters and topics of 1 to 3 bytes", t={"len": 4}, time=120)],
     "longer strings")

prop("M02", "A handshake succeeds exactly when the server accepts it",
     "Connecting writes exactly one CONNECT and consumes exactly the server's CONNACK; the client is connected afterwards, with the keep alive interval the server imposed or else its own, exactly when the CONNACK reports success. A refusal is reported with the server's reason code and closes the connection. Any failure of the connection during the handshake or any other first packet is reported, leaves the client disconnected, and leaves nothing locked.",
     ["inputs", "fault_sequences"], "all CONNACK codes, session flags and the properties that matter to the client; a failure at any operation",
     "tests run one successful and a few failing handshakes",
     [CL], [("Connect", CL)], ["packets written", "returned error", "connected state", "CONNACK event"],
     [run("client.HConnect", "any keep alive, reason code, session flag and one property; with and without a deadline"), run("client.HConnectFault", "one failing operation anywhere, or any other first packet")],
     "enhanced authentication during the handshake", [NET, CLK, SCHED], [("isConnected", "whether the handshake is done", CL)])

prop("M03", "Keep alive times out after twice the interval and never before",
     "The keep alive interval is the server's if the server gives one and the client's otherwise. When more than twice the interval has passed since the handshake or the last PINGRESP, polling reports a keep alive timeout, closes the connection and leaves the client disconnected; earlier, and at any time when the interval is zero, it does not. Each keep alive call writes exactly one PINGREQ, limited in time to one and a half intervals, or not limited when the interval is zero.",
     ["inputs", "histories"], "all intervals, all waiting times, up to two PINGRESPs",
     "tests do not wait for timeouts", [CL], [("Poll, KeepAlive", CL)], ["returned error", "connection state", "packets written", "deadline of the connection"],
     [run("client.HInterval", "all 2^32 pairs of client and server keep alive"), run("client.HAlive", "seven intervals from 0 to 65535 s on either side, any waiting times in nanoseconds, up to 2 PINGRESPs", time=120),
      run("client.HAlive", "every pair of intervals below 4 s, any waiting times, up to 1 PINGRESP", p={"any": 1, "below": 4, "pings": 1}, t={"below": 32}, time=120), run("client.HPing", "six intervals, 1 to 3 calls")],
     "waiting times above 2^48 ns", [NET, CLK, SCHED], [("pingRespDeadline", "when the silence of the server becomes a timeout", CL)])

prop("M04", "Unacknowledged messages never exceed what the server accepts",
     "At no time has the client sent more QoS 1 and 2 messages without a completed acknowledgement than the server's receive maximum, 65,535 if it gave none; a failure reported in a PUBACK or PUBREC completes the exchange too. A message beyond the limit is held until an acknowledgement makes room, and is then sent, or is refused when its context ends first; QoS 0 messages are never held. A connection with a new session starts with all of the room.",
     ["inputs", "histories", "schedules"], "all receive maxima; all histories of publishes and acknowledgements and all schedules within the bounds",
     "tests publish one message at a time and never reach the limit", [CL], [("reserveSendQuota, releaseSendQuota", CL)], ["packets written", "result of publishing"],
     [run("client.HQuota", "any receive maximum, histories of 4 steps", t={"steps": 6}, time=120, ttime=800), run("client.HQuotaDefault", "no receive maximum given: 65,535 messages of either QoS, one that is held, one more after an acknowledgement, a refusal or in a new session", p={"messages": 65535}, t={"messages": 65535}, steps=200000000, time=400, ttime=600), run("client.HQuotaWakes", "two held publishes, room made for both while they wait, 3 delays", p={"preempt": 3}, t={"preempt": 4}, time=200, ttime=400), run("client.HQuotaHeld", "2 publishers and a poller, 2 delays", p={"preempt": 2}, t={"preempt": 4, "publishers": 3, "rm": 2}, time=120, ttime=800)],
     "more publishers or delays; retransmission", [NET, CLK, SCHED, RNG], [("sendQuota", "how many more messages may be sent", CL)])

prop("M05", "The client enforces its own receive maximum, no more and no less",
     "QoS 1 and 2 messages are accepted, delivered and acknowledged as long as no more than the client's receive maximum, 65,535 if it set none, are unacknowledged, counting a QoS 2 message until its PUBREL is answered. A message beyond that is not delivered; the client sends exactly a DISCONNECT with reason 0x93, signals that once as an event, closes the connection and reports it as that reason code. The connection ends, and the message is not delivered, even if the DISCONNECT cannot be sent or closing fails. What the server accepts has no influence on this.",
     ["inputs", "histories"], "all receive maxima, all histories of messages and releases within the bounds",
     "tests receive one message at a time", [CL], [("Poll", CL)], ["packets written", "events", "connection state"],
     [run("client.HReceiveMaximum", "any receive maximum, histories of 5 steps, repeated messages and releases of unknown ones included; I/O that fails when the DISCONNECT is sent", p={"steps": 5}, t={"steps": 6}, time=150, ttime=850), run("client.HReceiveDefault", "no receive maximum or 1,000: 65,535 or 1,000 QoS 2 messages that are not released", p={"messages": 65535}, steps=200000000, time=400, ttime=600)],
     "longer histories", [NET, CLK, SCHED], [("receiveQuota", "how many more messages are accepted", CL)])

prop("M06", "Every packet gets exactly the answer the protocol requires",
     "QoS 1 messages are answered with one PUBACK, QoS 2 messages with one PUBREC, a successful PUBREC with one PUBREL and a PUBREL with one PUBCOMP, each with the same packet identifier. Nothing else a server may send is answered, a PUBREC that reports a failure included, and a packet a server must not send is reported as an error. In each case the client goes on with the next packet.",
     ["inputs"], "all packet identifiers, reason codes, flags, with and without storage and a pending message",
     "tests cover the success path of each kind", [CL], [("Poll, sendPuback, sendPubrec", CL)], ["packets written", "returned error"],
     [run("client.HReply", "one packet of each kind with any identifier and code, then another message")],
     "what follows a packet that must not be sent", [NET, CLK, SCHED])

prop("M07", "Messages stay stored exactly until they are acknowledged",
     "A QoS 1 or 2 message is in the storage before it is sent and stays there, whatever other traffic comes in between, until PUBACK, a refusing PUBREC, or a successful PUBREC, which replaces it by a record that stays until PUBCOMP; then nothing is left. A message that could not be stored, encoded or prepared is reported, not sent, not kept, and does not use up the quota; one whose write failed is reported and kept.",
     ["inputs", "histories", "fault_sequences"], "all identifiers and reason codes, a failure of storage, encoding or connection",
     "tests look at the storage after one successful exchange", [CL], [("preparePublish, Poll", CL)], ["contents of the storage", "packets written", "returned error"],
     [run("client.HPersist", "any identifier and codes, three kinds of traffic in between, one failure")],
     "sending stored messages again after a reconnect, which the client does not do", [NET, CLK, SCHED, RNG, "the storage is a recording stand-in"])

prop("M08", "QoS 2 messages are delivered once, both directions kept apart",
     "A QoS 2 message that the server repeats before its PUBREL is answered is acknowledged each time but delivered once; after the PUBREL the identifier stands for a new message. This holds across reconnects as long as the server continues the session. An incoming message that has the same packet identifier as an outgoing one does not affect the stored outgoing message, nor does its PUBREL.",
     ["inputs", "histories"], "all identifiers, up to three copies and two releases per round, both QoS levels in both directions, up to two reconnects",
     "tests never repeat a message", [CL], [("receiving, sending", CL)], ["events", "packets written", "contents of the storage"],
     [run("client.HExactlyOnce", "any identifier, 2 rounds of up to 3 copies and 2 releases", t={"rounds": 3}), run("client.HReceiveDefault", "1,000 messages that are not released (65,535 in the thorough run), three of them repeated, released and sent anew", p={"messages": 1000}, t={"messages": 65535}, steps=200000000, time=120, ttime=600), run("client.HCrossID", "any identifier, each QoS in each direction"),
      run("client.HSession", "any identifier, one or two reconnects, four ends of a connection, session continued or not")],
     "deduplication across process restarts", [NET, CLK, SCHED, "the storage is a recording stand-in"])

prop("M09", "Events reach exactly the channels they are meant for",
     "Every packet the server sends after the handshake is signalled once on every general event channel, with its contents. A message is also signalled on the channels bound to filters it matches and on no channel bound only to filters it does not match; bound channels get messages only.",
     ["inputs", "histories"], "all packets with any contents; all valid filters and topics within the bounds, two filters on one or two channels",
     "tests signal one event to one channel", [CL], [("signal, route", CL)], ["events"],
     [run("client.HEvents", "eleven packets, any identifier, code, topic of 1 to 2 bytes and payload up to 2 bytes, two channels"), run("client.HRouting", "any valid filter of 1 to 3 bytes and another, any topic of 1 to 2 bytes", t={"flen": 4, "tlen": 4}, time=120, ttime=800)],
     "channels that are full; one channel bound to two filters that both match may get a message twice; shared subscriptions", [NET, CLK, SCHED])

prop("M10", "Event channels hold, drop and close as documented",
     "A channel holds events in order up to its capacity, at least one, and misses those that arrive while it is full, without disturbing others. Closing a channel, even repeatedly or while events are being signalled, closes it and signals its end on its Done channel, to all who wait for that, panics never, and stops further events to it alone.",
     ["histories", "schedules"], "all histories of creating, closing and signalling within the bounds; all schedules of closing against signalling within the bounds",
     "tests create and close one channel", [CL, "mqtt/events.go"], [("CreateEventChannel, CloseEventChannel, signalChannel", CL)], ["events", "state of the channels"],
     [run("client.HChannels", "up to 3 channels, 5 steps", t={"steps": 6}, time=120, ttime=800), run("client.HChannelsLive", "2 messages against closing, 2 delays", t={"preempt": 4}, time=120)],
     "more channels, longer histories", [NET, CLK, SCHED])

prop("M11", "Disconnecting sends one DISCONNECT and ends the connection",
     "Disconnecting a connected client writes exactly one DISCONNECT, asking for the will to be published exactly when told to, with the session expiry asked for exactly when the CONNECT had a non-zero one, then closes the connection, signals the event and leaves the client disconnected. Nothing is written after it on that connection.",
     ["inputs"], "all session expiry values in CONNECT and DISCONNECT, with and without will",
     "tests disconnect once with default arguments", [CL], [("DisconnectWithSessionExpiry", CL)], ["packets written", "connection state", "events"],
     [run("client.HDisconnect", "any expiry values")],
     "expiry values outside 32 bits", [NET, CLK, SCHED])

prop("M12", "A client that is not connected does nothing and says so",
     "Before a handshake, after a refused one, after disconnecting, after the server disconnected, after the connection broke or ended, and after a keep alive timeout, every operation on the connection reports that the client is not connected, at once and without touching the connection. The server's DISCONNECT is signalled with its reason code and closes the connection.",
     ["histories", "inputs"], "six ways of not being connected, ten operations, all reason codes",
     "tests call two operations on a fresh client", [CL], [("isConnected checks", CL)], ["returned error", "operations on the connection"],
     [run("client.HOffline", "five histories with any reason code, ten operations")],
     "an end of the connection before a call notices it: writes that the connection still accepts", [NET, CLK, SCHED])

prop("M13", "Subscribing reports and applies exactly what the server granted",
     "Subscribing writes exactly one SUBSCRIBE with the filters and options in order. Success is reported exactly when the server granted every filter, and otherwise the first refusing reason code; channels are bound exactly to the filters that were granted.",
     ["inputs"], "one or two filters with any options, any answer codes",
     "tests subscribe to one filter that is granted", [CL], [("Subscribe", CL)], ["packets written", "returned error", "events"],
     [run("client.HSubscribe", "one or two filters, any options and codes"), run("client.HSubscribeBinding", "two filters, any codes, a message to each")],
     "more filters", [NET, CLK, SCHED, RNG])

prop("M14", "Unsubscribing ends exactly the subscriptions the server ended",
     "Unsubscribing writes exactly one UNSUBSCRIBE with the filters in order and reports success exactly when the server ended all of them, and otherwise the first refusing reason code. Channels bound to filters that were ended get no more messages and are closed; all other subscriptions and channels stay in force.",
     ["inputs"], "one or two of three filters and one without a channel, any answer codes",
     "tests unsubscribe once", [CL], [("Unsubscribe", CL)], ["packets written", "returned error", "events", "state of the channels"],
     [run("client.HUnsubscribe", "one or two of three filters and one without a channel, any codes, a message to each")],
     "a channel bound to several filters is closed when one of them ends", [NET, CLK, SCHED, RNG])

prop("M15", "No single failure makes the client hang or crash",
     "Whatever operation of the connection or the storage fails, and at whatever point of a session, every call returns, also those made afterwards and after connecting again. No lock stays held and nothing panics.",
     ["fault_sequences", "histories"], "one failure at any operation of a session of two connections with any operations",
     "tests inject no failures", [CL], [("error paths of all operations", CL)], ["whether calls return"],
     [run("client.HFaults", "two rounds of connect, one of six operations, messages in and disconnect; a failure at one of the first 14 operations of the connection or the first 3 of the storage", t={"ats": 30, "sats": 6}, time=120, ttime=800)],
     "several failures in one session", [NET, CLK, SCHED, "the storage is a recording stand-in"])

prop("M16", "Concurrent calls neither deadlock nor disturb each other",
     "Any two operations called at once on two goroutines while a third polls all end, and all succeed unless one of them disconnects the client. What reaches the server is a sequence of whole packets.",
     ["schedules"], "all pairs of publish at each QoS, subscribe, unsubscribe, keep alive and disconnect; all schedules within the bound",
     "tests run under whatever schedule occurs", [CL], [("connMutex, mutex, eventMutex", CL)], ["whether calls return", "returned errors", "packets written"],
     [run("client.HPairs", "3 goroutines, 2 delays", p={"preempt": 2}, t={"preempt": 4}, time=120, ttime=800),
      run("client.HPairs", "3 goroutines, 1 delay, writes and reads of the connection are points of switching too", p={"preempt": 1, "points": 1}, t={"preempt": 2}, time=120, ttime=800)],
     "more goroutines or delays", [NET, CLK, SCHED, RNG])

prop("M17", "Packets of concurrent calls are written whole, one after another",
     "When calls on several goroutines and the answers of a polling goroutine are written at once, every packet is written in one piece before the next one starts, and each exactly once.",
     ["schedules"], "all pairs of operations against a poller answering two messages, with switching during writes",
     "tests never write from two goroutines while one write is slow", [CL], [("connMutex", CL)], ["packets written"],
     [run("client.HWire", "3 goroutines, 2 delays", p={"preempt": 2}, t={"preempt": 4}, time=120, ttime=800)],
     "more goroutines or delays", [NET, CLK, SCHED, RNG])

prop("M18", "The in-memory storage is a map with no duplicates and no losses",
     "Any sequence of storing, fetching and dropping behaves like a map from packet identifier to packet: a second packet under an identifier is refused, a missing one is reported, the packet stored is the packet returned. Goroutines using it at once do not lose or duplicate anything.",
     ["histories", "schedules", "inputs"], "all histories of four operations with any identifiers, all schedules of two goroutines within the bound",
     "tests do one operation of each kind", ["mqtt/storage/memory/memory.go"], [("Store, Get, Drop", "mqtt/storage/memory/memory.go")], ["returned packets and errors"],
     [run("client.HStorage", "4 operations, any identifiers", t={"steps": 6}, time=120, ttime=800), run("client.HStorageFilled", "2 to 17 entries, 2 operations with any identifiers", t={"steps": 3}, time=120, ttime=400), run("client.HStorageThreads", "2 goroutines, 3 delays", t={"preempt": 6})],
     "longer histories", [SCHED])

prop("M19", "A broken connection is reported and no partial packet acted on",
     "When the stream ends, fails or falls silent inside a packet, or a packet is malformed or one that a server must not send, polling reports an error, delivers nothing, acknowledges nothing and changes nothing that is stored. The connection is closed, the client is not connected any more, calls that wait end with an error, and nothing that arrives later on that connection is taken for a packet.",
     ["fault_sequences", "inputs"], "twelve kinds of packet, every point at which the stream ends, fails or falls silent; malformed and unexpected packets; failing deadlines",
     "tests read complete packets", [CL], [("Poll, abort", CL)], ["returned error", "events", "packets written", "contents of the storage", "connection state"],
     [run("client.HLost", "twelve kinds of packet, every cut, every failing read, silence of 30 s at every point, three kinds of malformed packets, six packet types a server must not send, with four calls waiting")],
     "failures of several connections in a row", [NET, CLK, SCHED, RNG])

prop("M20", "Packet identifiers are never zero and never in use",
     "Whatever the random source yields, the packet identifiers the client assigns are never zero and differ from those of all exchanges that are not complete, messages as well as requests, and of messages that the storage still holds from before. A request that could not be sent occupies none. A call that finds none free fails and sends nothing; messages of QoS 0 need none.",
     ["inputs", "histories"], "all values of the random source, three packets of any kind in flight",
     "tests use the default random source once", [CL], [("newPacketIdentifier", CL)], ["packets written"],
     [run("client.HPacketID", "any random values, 3 packets, or 2 and a message stored before", t={"packets": 4}, time=120, ttime=800), run("client.HAllUsed", "no identifier or one left of 65,535, five random values; a request before that could not be sent", steps=200000000, time=120)],
     "more packets in flight; identifiers the program sets itself", [NET, CLK, SCHED, "the random source is arbitrary"])

prop("M21", "Every reason code has its own standard text",
     "Each error reason code of the standard has the text the standard gives it, no two share one, and any other code still yields a text and can be compared.",
     ["inputs"], "all 256 codes, all pairs of error codes", "tests look at no text", ["mqtt/errors.go"], [("ReasonCode.Error", "mqtt/errors.go")], ["error text"],
     [run("client.HReasons", "all pairs of codes"), run("client.HReasonAny", "all codes")], "capital and small letters are not told apart")

prop("M22", "Packets that arrive slowly are neither lost nor processed twice",
     "A packet that arrives in two pieces, the second later than a poll waits for the first byte, is processed exactly once by a later or the same poll, and so is the packet behind it. A poll without a limit waits for the rest of a packet however long that takes. Messages that arrive late within the time of a poll are still acknowledged.",
     ["schedules", "inputs"], "every split of eleven kinds of packet, delays around the time limit, polls with and without a limit",
     "tests deliver whole packets at once", [CL], [("Poll", CL)], ["events", "packets written", "bytes consumed"],
     [run("client.HSlow", "eleven kinds of packet, every split, delays of 0, 0.7 and 1.4 s against a limit of 1 s or none, of 40 s against none")], "a peer that stays silent inside a packet for more than 30 s while a poll has a limit", [NET, CLK, SCHED])

prop("M23", "Reconnecting starts from the new handshake",
     "After a disconnect by either side or a keep alive timeout the client can connect again: exactly one CONNECT is written, keep alive interval and timeout, both quotas and the set of messages being received are those of the new connection and session. Calls made meanwhile on other goroutines send nothing before the new CONNECT, nor anything that was reserved for the old connection.",
     ["histories", "inputs"], "three ways to lose the connection, all keep alive values and receive maxima, with and without open exchanges",
     "tests connect once", [CL], [("Connect", CL)], ["packets written", "events", "returned errors"],
     [run("client.HReconnect", "any keep alive values and receive maximum"),
      run("client.HSwitch", "two calls while a third goroutine reconnects, 2 delays", p={"preempt": 2}, t={"preempt": 3}, time=120, ttime=800)], "sessions that the server continues", [NET, CLK, SCHED, RNG])

prop("M24", "Requests get their own answers, or end when their context ends",
     "A subscribe or unsubscribe call succeeds exactly on the answer of the right kind with its own packet identifier and as many reason codes as filters, whatever order several requests are answered in. With any other answer, none at all, or a failing connection it ends with an error, and the client goes on. The late answer to a request whose call has ended is not taken for that of another one. An empty request is refused.",
     ["inputs", "histories", "fault_sequences"], "eight kinds of answers, any other identifier, two requests answered in any order, one of them late",
     "tests answer one request properly", [CL], [("respond, Subscribe, Unsubscribe", CL)], ["returned error", "packets written"],
     [run("client.HSubscribeFault", "eight kinds of answers"), run("client.HRequests", "2 requests, any order", t={"requests": 3}),
      run("client.HLateAnswer", "a request whose call ended and another one, any random value, answers in any order with any code")],
     "more requests at once", [NET, CLK, SCHED, RNG])

prop("M26", "Nothing is written behind a part of a packet",
     "When a packet could be written only in part, the call reports the error and the connection is closed: no other call, answer or DISCONNECT is written behind the part, which the server would take for its rest, and the next poll reports the end of the connection. When a write failed without writing anything, what is written later is whole packets.",
     ["fault_sequences"], "eight calls and four kinds of answers, the write failing after any number of bytes, eight calls afterwards",
     "tests never let a write fail", [CL], [("send, Publish", CL)], ["bytes written", "returned errors", "connection state"],
     [run("client.HTorn", "the first 13 bytes of any packet")],
     "failing writes of longer packets beyond the bound", [NET, CLK, SCHED, RNG])

prop("M27", "Calls that wait end when the connection does",
     "A publish that waits for quota and a subscribe or unsubscribe that waits for its answer end, with the error that the client is not connected, when the connection ends, by a disconnect of either side, a timeout, the end of the stream, a malformed packet or too many messages, even if closing the connection fails and even if their contexts never end. They leave nothing behind that affects the next connection.",
     ["schedules", "fault_sequences"], "seven ends of the connection, three or four calls that start waiting before, during or after, all schedules within the bound",
     "tests never end a connection while calls wait", [CL], [("connectionClosed, reserveSendQuota, respond", CL)], ["whether calls return", "returned errors"],
     [run("client.HWaiting", "3 calls, 1 delay", t={"preempt": 2, "calls": 4}, time=120, ttime=800)],
     "a connection that ends without the client being told by a poll", [NET, CLK, SCHED, RNG])

prop("M28", "Any history of calls and packets follows the protocol",
     "Over any history of publishing, receiving, acknowledging, subscribing, unsubscribing, pinging, disconnecting and reconnecting with a server that keeps to the protocol, the client writes exactly the packets that the protocol requires at each step, delivers each message once to exactly the channels it is meant for, and keeps exactly the open exchanges stored.",
     ["histories", "inputs"], "all histories of three steps (four in the thorough tier) of twenty kinds, for each pair of receive maxima of 1 and 2, with and without storage",
     "tests make single calls", [CL], [("the whole client", CL)], ["packets written", "events", "returned errors", "contents of the storage", "connected state"],
     [run("client.HHistory", "histories of 3 steps, receive maxima of 1 and 2, any payloads and identifiers", time=150),
      run("client.HHistory", "histories of 4 steps, receive maxima of 1", p={"steps": 4, "maxima": 1}, ttime=850, only="thorough")],
     "longer histories; servers that violate the protocol", [NET, CLK, SCHED, RNG, "the storage is a recording stand-in"])

prop("M29", "Every call is limited by its own context and no other",
     "Each call writes its packet under the deadline of its own context, or without one if that has none, whatever deadlines earlier calls, calls at the same time or polls have set. If the connection does not take the packet by then, the call ends with an error, nothing is written, and later calls work. A poll waits for a packet until its own deadline, returns without an error if none came, and waits on if it has no deadline.",
     ["inputs", "schedules"], "every kind of call after every other, deadlines none, soon or far, any time in between; two calls at once while a third goroutine polls",
     "tests set no deadlines that matter", [CL], [("SetDeadline calls", CL)], ["deadlines of the connection at each write", "virtual time", "returned errors"],
     [run("client.HDeadline", "nine kinds of call after four others, three kinds of deadline each, any idle time up to 1000 s"),
      run("client.HStuck", "nine kinds of call on a connection that takes nothing, any idle time"),
      run("client.HPollLimit", "a poll after three other calls, any idle time"),
      run("client.HDeadlines", "two of six kinds of call at once, 2 delays", p={"preempt": 2}, time=150)],
     "contexts that are cancelled rather than expire: they end waiting, not writing", [NET, CLK, SCHED])

prop("M30", "What was delivered stays as it was",
     "A packet that was delivered on an event channel keeps its contents, whatever arrives or is sent afterwards and even when the connection ends; the same goes for messages that still wait in a channel.",
     ["inputs", "histories"], "every kind of packet followed by every other with any contents, followed by a publish, a reconnect or the end of the stream",
     "tests look at an event once, right after it arrived", [CL, PK], [("Poll", CL), ("ReadFrom of each packet", PK)], ["contents of delivered packets"],
     [run("client.HKept", "two of nine kinds of packet with arbitrary identifiers, codes, topics, payloads and properties", time=150)],
     "changes that a program makes itself to a packet that several channels have received", [NET, CLK, SCHED])

prop("M31", "Clients and storages do not affect one another",
     "Two clients in one program behave each as if it were alone, one after the other and at the same time: packet identifiers, quotas, exchanges, subscriptions, event channels, responses and connection state of one are never touched by calls to, or packets for, the other. The same goes for two in-memory storages.",
     ["histories", "schedules", "inputs"], "all histories of three steps of twenty kinds by two clients in turn; two calls, two polls and two messages at the same time on two clients",
     "tests use one client at a time", [CL, "mqtt/storage/memory/memory.go", PK], [("NewClient", CL), ("NewStorage", "mqtt/storage/memory/memory.go")], ["packets written", "events", "returned errors", "contents of the storage", "unordered accesses"],
     [run("client.HApart", "three steps in turn, with and without storage, the same packet identifiers on both sides", time=150),
      run("client.HApartThreads", "two of seven kinds of call, 1 delay", p={"preempt": 1}, t={"preempt": 2}, time=150, ttime=800),
      run("client.HStorages", "3 operations on two storages", t={"steps": 4})],
     "more than two clients", [NET, CLK, SCHED, RNG])

prop("M32", "A failing storage is reported and harms nothing else",
     "When the storage fails while an acknowledgement is processed, polling reports it; a message that was acknowledged is delivered all the same. The client stays connected, holds no lock, and everything that follows works: messages are received and answered, sent and stored, and the identifier of an exchange that is not complete is given to no other.",
     ["fault_sequences", "inputs"], "a failing store or drop at each kind of packet with any identifier and code, in each state of an exchange",
     "tests use a storage that never fails", [CL], [("Poll", CL)], ["returned error", "packets written", "events", "contents of the storage"],
     [run("client.HStoreFault", "seven kinds of packet in four states")],
     "a storage that fails more than once; what becomes of the exchange whose record could not be changed", [NET, CLK, SCHED, RNG, "the storage is a recording stand-in"])

prop("M33", "A topic alias stands for the topic the server gave it",
     "A message that comes with a topic alias instead of a topic is delivered with the topic for which the server set that alias last on this connection, to the channels bound to filters that match it. A message with an alias that is not set on this connection, or with neither topic nor alias, is reported, not delivered and not acknowledged, and the connection is closed.",
     ["inputs", "histories"], "any aliases in three messages with or without topics, across a reconnect",
     "tests use no aliases", [CL], [("Poll, topicAliases", CL)], ["events", "packets written", "returned error"],
     [run("client.HAlias", "3 messages with any aliases, with topic, alias or both, a reconnect at any point", t={"messages": 4}, time=120, ttime=600)],
     "more than three messages; aliases beyond the maximum the client announced", [NET, CLK, SCHED, RNG])

prop("M34", "What is sent keeps to the limits the server announced",
     "A message is sent exactly when it is within the maximum QoS, retain availability, maximum packet size and topic alias maximum of the server's CONNACK, each at its standard default where the server gave none, and a subscribe or unsubscribe request exactly when it is within the maximum packet size. Otherwise the call reports the standard's reason code for a limit exceeded, nothing is written or stored, and no quota is used up. The limits of an earlier connection do not apply to a later one.",
     ["inputs"], "all values of the four limits, present or absent; messages of any QoS, retain flag, topic alias and of sizes around the points where the length field grows",
     "tests use servers without limits", [CL], [("preparePublish, encode, Connect", CL)], ["returned error", "packets written", "contents of the storage"],
     [run("client.HLimits", "any limits, two messages and a request, on a first or second connection", time=150)],
     "the will, which is sent before the limits are known; the other availability flags of the CONNACK", [NET, CLK, SCHED, RNG])

prop("M25", "Concurrent calls never race on the client's data",
     "Any two calls of the client's functions that run at once, while other goroutines poll and read events, access shared memory only in an order that locks, channels or the start of goroutines establish: there is no data race, whatever the server sends meanwhile.",
     ["schedules"], "all pairs of fourteen functions of the client and nine kinds of packets from the server, with and without storage, all schedules within the bound; races are found whether or not the accesses collide in the schedule that was executed",
     "the race detector sees only what the tests execute, which is one call at a time", [CL, "mqtt/storage/memory/memory.go"], [("mutex, connMutex, eventMutex, connectedMutex", CL)], ["memory accesses that nothing orders"],
     [run("client.HRaces", "4 goroutines, every order of events without preemption"), run("client.HRaces", "4 goroutines, 1 delay, storage present", p={"preempt": 1, "store": 1}, t={"store": 2}, time=250, ttime=850)],
     "functions documented to be set up before connecting; accesses inside the network connection that the program supplies", [NET, CLK, SCHED, RNG], [("isConnected, keepAliveInterval, pingRespDeadline, storage, rngFn", "state that several functions use", CL)])

NA = [
    ("N01", "Messages not acknowledged before a reconnect are sent again",
     "Every QoS 1 or 2 message that was not acknowledged when the connection was lost is sent again, with the duplicate flag, when the server continues the session.",
     ["histories"], "all histories of messages and reconnects", "no test reconnects", [CL], [("storage", CL)],
     "the client does not implement redelivery (it only stores the packets), so there is no code to encode; the storing itself is decided by M07"),
    ("N03", "Retry delays grow and stay bounded",
     "Repeated attempts after the end of a stream wait increasingly long, within a bound, and stop when the context ends.",
     ["inputs"], "all numbers of attempts", "no test", ["mqtt/backoff.go"], [("backoff", "mqtt/backoff.go")],
     "dead code that nothing calls, and its delay is a floating point power, which the integer encoding does not cover"),
]

# ------------------------------------------------ runs that several properties need
# (a statement is decided by the runs of its own check)

SHARED = {
    "M02": [run("client.HReconnect", "a second handshake after three ways to lose the first connection, any keep alive values and receive maximum")],
    "M04": [run("client.HReconnect", "both receive maxima of a second connection"), run("client.HSwitch", "two calls while a third goroutine reconnects, 1 delay", p={"preempt": 1})],
    "M05": [run("client.HSession", "messages across reconnects")],
    "M07": [run("client.HCrossID", "any identifier in both directions at once"), run("client.HLost", "partial packets of twelve kinds")],
    "M09": [run("client.HBindings", "three filters and two channels, 2 steps", t={"steps": 3}, time=150, ttime=400), run("client.HSubscribeBinding", "two filters, any codes, a message to each"), run("client.HUnsubscribe", "one or two of three filters, any codes, a message to each")],
    "M10": [run("client.HBindings", "three filters and two channels, 2 steps", t={"steps": 3}, time=150, ttime=400)],
    "M11": [run("client.HSwitch", "two calls while a third goroutine disconnects and reconnects, 1 delay", p={"preempt": 1}), run("client.HWaiting", "calls that start before, during or after, 1 delay")],
    "M12": [run("client.HLost", "after every way in which a connection fails"), run("client.HWaiting", "calls that start while the connection ends, 1 delay")],
    "M13": [run("client.HRequests", "2 requests at once, any order of answers")],
    "M14": [run("client.HBindings", "three filters and two channels, 2 steps", t={"steps": 3}, time=150, ttime=400), run("client.HRequests", "2 requests at once, any order of answers")],
    "M15": [run("client.HConnectFault", "one failing operation of the handshake"), run("client.HLost", "every failure inside a packet, with four calls waiting"),
            run("client.HTorn", "writes that fail after any of the first 13 bytes"), run("client.HSubscribeFault", "failures of requests")],
    "M16": [run("client.HSwitch", "two calls while a third goroutine reconnects, 1 delay", p={"preempt": 1}, t={"preempt": 2}), run("client.HRequests", "2 requests at once, any order of answers")],
    "M17": [run("client.HTorn", "writes that fail after any of the first 13 bytes")],
    "M19": [run("client.HTorn", "answers that could not be written")],
    "M20": [run("client.HLateAnswer", "a request whose call ended, any random value"), run("client.HSession", "a message that is not acknowledged across reconnects")],
    "M24": [run("client.HWaiting", "requests that wait while the connection ends, 1 delay")],
    "M25": [run("client.HStorageThreads", "2 goroutines on the in-memory storage, 3 delays"), run("client.HChannelsLive", "2 messages against closing, 2 delays")],
}
for p in P:
    p["runs"] += SHARED.get(p["id"], [])
