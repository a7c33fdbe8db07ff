package codec

import (
	"bytes"
	"io"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// ---- PUBLISH ----

func publishFields() *packets.Publish {
	f := choose(8)
	p := &packets.Publish{
		Retain:                vnd.Bool("retain"),
		Duplicate:             vnd.Bool("dup"),
		QoS:                   packets.QoS(vnd.Choice("qos", 3)),
		MessageExpiryInterval: f.u32(0, "expiry"),
		TopicAlias:            f.u16(1, "alias"),
		ResponseTopic:         f.topic(2, "resp"),
		CorrelationData:       f.str(3, "corr"),
		UserProperties:        f.users(4, "user"),
		ContentType:           f.text(6, "ctype"),
	}
	if f.arbitrary(5) {
		v := vnd.U32("subid")
		vnd.Assume(v <= 268435455)
		p.SubscriptionIdentifier = primitives.VariableByteInt(v)
	} else {
		p.SubscriptionIdentifier = primitives.VariableByteInt(f.bg * 300)
	}
	if f.arbitrary(7) {
		p.Payload = vnd.Bytes("payload", vnd.Choice("len.payload", 3))
	} else if f.bg == 1 {
		p.Payload = []byte("hello")
	}
	p.Topic = ps(topic("topic", vnd.Choice("len.topic", 3)))
	if p.QoS > 0 {
		id := vnd.U16("id")
		vnd.Assume(id != 0)
		p.PacketIdentifier = primitives.PrimitiveUint16(id)
	} else {
		vnd.Assume(!p.Duplicate)
	}
	return p
}

// HPublish: an arbitrary message encodes to a PUBLISH carrying exactly it.
func HPublish() {
	p := publishFields()
	// whatever an encoding before has left in the header
	p.Header.Header = primitives.PrimitiveByte(vnd.Byte("header"))
	p.Header.Remaining = primitives.VariableByteInt(vnd.U32("remaining"))
	checkPublish(p)
}

// HPublishLarge: lengths around the points where a length field grows.
func HPublishLarge() {
	n := edges[vnd.Choice("len", len(edges))]
	s := filler(n)
	p := &packets.Publish{Topic: "t", QoS: packets.QoS(vnd.Choice("qos", 2)), PacketIdentifier: 9, MessageExpiryInterval: primitives.PrimitiveUint32(vnd.U32("expiry"))}
	switch vnd.Choice("where", 7) {
	case 5:
		p.ResponseTopic = s
	case 6:
		p.ContentType = s
	case 0:
		p.Topic = s
		vnd.Assume(n > 0)
	case 1:
		p.Payload = []byte(s)
	case 2:
		p.CorrelationData = s
	case 3:
		p.UserProperties = primitives.PrimitiveStringMap{"": s}
	case 4:
		p.UserProperties = primitives.PrimitiveStringMap{s: "v"}
	}
	checkPublish(p)
}

func checkPublish(p *packets.Publish) {
	if len(p.Topic) == 0 && p.TopicAlias == 0 {
		var buf bytes.Buffer
		_, err := p.WriteTo(&buf)
		vnd.Assert(err != nil, "PUBLISH: neither topic nor alias is refused")
		vnd.Assert(buf.Len() == 0, "PUBLISH: nothing is written for a refused packet")
		vnd.Cover("refused")
		return
	}
	q := *p // what is encoded is compared with what was asked for
	q.UserProperties = mine(p.UserProperties)
	q.Payload = append([]byte(nil), p.Payload...)
	flags, c := encoded("PUBLISH", &q, 3)
	if c == nil {
		return
	}
	vnd.Assert(flags&1 == 1 == p.Retain, "PUBLISH: retain flag")
	vnd.Assert(flags>>1&3 == byte(p.QoS), "PUBLISH: QoS")
	vnd.Assert(flags>>3 == 1 == p.Duplicate, "PUBLISH: duplicate flag")
	vnd.Assert(vnd.EqBytes(c.Str(), []byte(p.Topic)), "PUBLISH: topic name")
	if p.QoS > 0 {
		vnd.Assert(c.U16() == uint16(p.PacketIdentifier), "PUBLISH: packet identifier")
	}
	ps := c.Props()
	vnd.Assert(!c.Bad, "PUBLISH: properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(ref.Allowed(ps, 0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03), "PUBLISH: only PUBLISH properties, none twice")
	num("PUBLISH: payload format", ps, 0x01, 0)
	num("PUBLISH: message expiry interval", ps, 0x02, p.MessageExpiryInterval.Value())
	num("PUBLISH: topic alias", ps, 0x23, uint32(p.TopicAlias))
	num("PUBLISH: subscription identifier", ps, 0x0B, uint32(p.SubscriptionIdentifier))
	str("PUBLISH: response topic", ps, 0x08, p.ResponseTopic)
	str("PUBLISH: correlation data", ps, 0x09, p.CorrelationData)
	str("PUBLISH: content type", ps, 0x03, p.ContentType)
	users("PUBLISH", ps, p.UserProperties)
	vnd.Assert(vnd.EqBytes(c.B[c.Pos:], p.Payload), "PUBLISH: payload")
	vnd.Cover("encoded")
}

// tally counts bytes and keeps the first few.
type tally struct {
	n    int
	head []byte
}

func (t *tally) Write(p []byte) (int, error) {
	for i := 0; i < len(p) && len(t.head) < 5; i++ {
		t.head = append(t.head, p[i])
	}
	t.n += len(p)
	return len(p), nil
}

// HPublishHuge: the payload has any length up to half a gigabyte.
func HPublishHuge() {
	var t tally
	p := &packets.Publish{Topic: "t", Payload: vnd.LazyBytes("payload", 1<<29)}
	n, err := p.WriteTo(&t)
	total := len(p.Payload) + 4
	if total > 268435455 {
		vnd.Assert(err != nil, "PUBLISH: a message too long for MQTT is refused")
		vnd.Cover("too long")
		return
	}
	vnd.Assert(err == nil, "PUBLISH: valid packet is encoded")
	if err != nil {
		return
	}
	vnd.Assert(int(n) == t.n, "PUBLISH: reported count equals bytes written")
	vnd.Assert(len(t.head) == 5, "PUBLISH: remaining length equals the bytes that follow")
	var v, hdr int
	done := false
	for i := 1; i < 5; i++ {
		v = vnd.IteInt(done, v, v|int(t.head[i]&0x7f)<<uint(7*(i-1)))
		hdr = vnd.IteInt(done, hdr, i+1)
		done = vnd.Or(done, t.head[i]&0x80 == 0)
	}
	vnd.Assert(done, "PUBLISH: remaining length equals the bytes that follow")
	vnd.Assert(v == t.n-hdr, "PUBLISH: remaining length equals the bytes that follow")
	vnd.Assert(v == total, "PUBLISH: payload length is counted")
	vnd.Cover("encoded")
}

// HPublishRoundTrip: what one client encodes another decodes to the same message.
func HPublishRoundTrip() {
	p := publishFields()
	vnd.Assume(len(p.Topic) > 0 || p.TopicAlias != 0)
	var buf bytes.Buffer
	_, err := p.WriteTo(&buf)
	vnd.Assert(err == nil, "PUBLISH: valid packet is encoded")
	if err != nil {
		return
	}
	s := &stream{b: buf.Bytes(), end: io.EOF}
	var q packets.Publish
	if vnd.Choice("header", 2) == 0 {
		q.Header, _ = header("PUBLISH", s)
	}
	_, err = q.ReadFrom(s)
	vnd.Assert(err == nil, "PUBLISH: own encoding is accepted")
	if err != nil {
		return
	}
	vnd.Assert(s.pos == len(s.b), "PUBLISH: decoder consumes the encoding")
	vnd.Assert(p.Retain == q.Retain, "PUBLISH round trip: retain")
	vnd.Assert(p.Duplicate == q.Duplicate, "PUBLISH round trip: duplicate")
	vnd.Assert(p.QoS == q.QoS, "PUBLISH round trip: QoS")
	vnd.Assert(vnd.EqStr(string(p.Topic), string(q.Topic)), "PUBLISH round trip: topic")
	if p.QoS > 0 {
		vnd.Assert(p.PacketIdentifier == q.PacketIdentifier, "PUBLISH round trip: packet identifier")
	}
	vnd.Assert(vnd.EqBytes(p.Payload, q.Payload), "PUBLISH round trip: payload")
	vnd.Assert(p.MessageExpiryInterval == q.MessageExpiryInterval, "PUBLISH round trip: message expiry interval")
	vnd.Assert(p.TopicAlias == q.TopicAlias, "PUBLISH round trip: topic alias")
	vnd.Assert(vnd.EqStr(string(p.ResponseTopic), string(q.ResponseTopic)), "PUBLISH round trip: response topic")
	vnd.Assert(vnd.EqStr(string(p.CorrelationData), string(q.CorrelationData)), "PUBLISH round trip: correlation data")
	vnd.Assert(vnd.EqStr(string(p.ContentType), string(q.ContentType)), "PUBLISH round trip: content type")
	vnd.Assert(p.SubscriptionIdentifier == q.SubscriptionIdentifier, "PUBLISH round trip: subscription identifier")
	vnd.Assert(len(p.UserProperties) == len(q.UserProperties), "PUBLISH round trip: user properties")
	for k, v := range p.UserProperties {
		vnd.Assert(vnd.EqStr(string(q.UserProperties[k]), string(v)), "PUBLISH round trip: user properties")
	}
	vnd.Cover("round trip")
}

// ---- SUBSCRIBE, UNSUBSCRIBE ----

type sub struct {
	filter []byte
	opts   byte
}

func topics() ([]packets.Topic, []sub) {
	n := vnd.Choice("topics", vnd.Param("topics", 2)+1)
	ts := make([]packets.Topic, n)
	subs := make([]sub, n)
	for i := range ts {
		switch vnd.Choice("shape", 3) {
		case 0:
			subs[i].filter = topic("filter", 1)
		case 1:
			subs[i].filter = append(topic("filter", 2), '/', '+', '/', '#')
		case 2:
			subs[i].filter = append([]byte("$share/g/"), topic("filter", 1)...)
		}
		ts[i].SetFilter(string(subs[i].filter))
		q := vnd.Byte("qos")
		h := vnd.Byte("handling")
		vnd.Assume(vnd.And(q <= 2, h <= 2))
		ts[i].SetQoS(packets.QoS(q))
		ts[i].SetRetainHandling(packets.RetainHandlingOption(h))
		subs[i].opts = byte(q) | byte(h)<<4
		if i == 0 && vnd.Choice("rap", 2) == 1 {
			ts[i].SetRetainAsPublished(true)
			subs[i].opts |= 8
		}
	}
	return ts, subs
}

// HSubscribe: SUBSCRIBE carries exactly the requested subscriptions.
func HSubscribe() {
	f := choose(2)
	p := &packets.Subscribe{PacketIdentifier: primitives.PrimitiveUint16(vnd.U16("id")), UserProperties: f.users(1, "user")}
	vnd.Assume(p.PacketIdentifier != 0)
	if f.arbitrary(0) {
		p.SubscriptionIdentifier = primitives.VariableByteInt(vnd.U32("subid"))
		vnd.Assume(p.SubscriptionIdentifier <= 268435455)
	}
	var subs []sub
	p.Topics, subs = topics()
	checkSubscribe(p, subs)
}

func checkSubscribe(p *packets.Subscribe, subs []sub) {
	if len(subs) == 0 {
		refused("SUBSCRIBE", p)
		return
	}
	q := *p
	q.UserProperties = mine(p.UserProperties)
	q.Topics = append([]packets.Topic(nil), p.Topics...)
	flags, c := encoded("SUBSCRIBE", &q, 8)
	if c == nil {
		return
	}
	vnd.Assert(flags == 2, "SUBSCRIBE: reserved header flags")
	vnd.Assert(c.U16() == uint16(p.PacketIdentifier), "SUBSCRIBE: packet identifier")
	ps := c.Props()
	vnd.Assert(!c.Bad, "SUBSCRIBE: properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(ref.Allowed(ps, 0x0B, 0x26), "SUBSCRIBE: only SUBSCRIBE properties, none twice")
	num("SUBSCRIBE: subscription identifier", ps, 0x0B, uint32(p.SubscriptionIdentifier))
	users("SUBSCRIBE", ps, p.UserProperties)
	for _, s := range subs {
		vnd.Assert(vnd.EqBytes(c.Str(), s.filter), "SUBSCRIBE: topic filter")
		vnd.Assert(c.Byte() == s.opts, "SUBSCRIBE: subscription options")
	}
	vnd.Assert(!c.Bad, "SUBSCRIBE: all subscriptions are sent")
	vnd.Assert(c.Left() == 0, "SUBSCRIBE: nothing follows the subscriptions")
	vnd.Cover("SUBSCRIBE")
}

func refused(name string, p io.WriterTo) {
	var buf bytes.Buffer
	_, err := p.WriteTo(&buf)
	vnd.Assert(err != nil, name+": a request without topics is refused")
	vnd.Assert(buf.Len() == 0, name+": nothing is written for a refused packet")
	vnd.Cover("refused")
}

// HUnsubscribe: UNSUBSCRIBE names exactly the filters.
func HUnsubscribe() {
	f := choose(1)
	p := &packets.Unsubscribe{PacketIdentifier: primitives.PrimitiveUint16(vnd.U16("id")), UserProperties: f.users(0, "user")}
	vnd.Assume(p.PacketIdentifier != 0)
	var subs []sub
	p.Topics, subs = topics()
	checkUnsubscribe(p, subs)
}

func checkUnsubscribe(p *packets.Unsubscribe, subs []sub) {
	if len(subs) == 0 {
		refused("UNSUBSCRIBE", p)
		return
	}
	q := *p
	q.UserProperties = mine(p.UserProperties)
	q.Topics = append([]packets.Topic(nil), p.Topics...)
	flags, c := encoded("UNSUBSCRIBE", &q, 10)
	if c == nil {
		return
	}
	vnd.Assert(flags == 2, "UNSUBSCRIBE: reserved header flags")
	vnd.Assert(c.U16() == uint16(p.PacketIdentifier), "UNSUBSCRIBE: packet identifier")
	ps := c.Props()
	vnd.Assert(!c.Bad, "UNSUBSCRIBE: properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(ref.Allowed(ps, 0x26), "UNSUBSCRIBE: only UNSUBSCRIBE properties")
	users("UNSUBSCRIBE", ps, p.UserProperties)
	for _, s := range subs {
		vnd.Assert(vnd.EqBytes(c.Str(), s.filter), "UNSUBSCRIBE: topic filter")
	}
	vnd.Assert(!c.Bad, "UNSUBSCRIBE: all filters are sent")
	vnd.Assert(c.Left() == 0, "UNSUBSCRIBE: nothing follows the filters")
	vnd.Cover("UNSUBSCRIBE")
}

// HSubLarge: lengths around the points where a length field grows.
func HSubLarge() {
	n := edges[vnd.Choice("len", len(edges))]
	vnd.Assume(n > 0)
	s := filler(n)
	var t packets.Topic
	t.SetQoS(packets.QoS1)
	ts := sub{[]byte("a"), 1}
	var us primitives.PrimitiveStringMap
	switch vnd.Choice("where", 2) {
	case 0:
		ts.filter = []byte(s)
	case 1:
		us = primitives.PrimitiveStringMap{s: "v"}
	}
	t.SetFilter(string(ts.filter))
	id := primitives.PrimitiveUint16(vnd.U16("id"))
	vnd.Assume(id != 0)
	if vnd.Choice("which", 2) == 0 {
		checkSubscribe(&packets.Subscribe{PacketIdentifier: id, UserProperties: us, Topics: []packets.Topic{t}}, []sub{ts})
	} else {
		checkUnsubscribe(&packets.Unsubscribe{PacketIdentifier: id, UserProperties: us, Topics: []packets.Topic{t}}, []sub{ts})
	}
}

// ---- acknowledgements ----

// HAcks: the four publish acknowledgements.
func HAcks() {
	f := choose(2)
	f.maxStr = 2
	a := packets.Puback{
		PacketIdentifier: primitives.PrimitiveUint16(vnd.U16("id")),
		ReasonCode:       primitives.PrimitiveByte(vnd.Byte("code")),
		ReasonString:     f.text(0, "reason"),
		UserProperties:   f.users(1, "user"),
	}
	vnd.Assume(a.PacketIdentifier != 0)
	kind := vnd.Choice("kind", 4)
	if vnd.Choice("header", 2) == 1 { // set by the program, or left by an encoding before
		a.Header.SetType(packets.PacketType(4 + kind))
		a.Header.Remaining = primitives.VariableByteInt(vnd.U32("remaining"))
	}
	checkAck(a, kind)
}

// HAcksLarge: lengths around the points where a length field grows.
func HAcksLarge() {
	a := packets.Puback{PacketIdentifier: primitives.PrimitiveUint16(vnd.U16("id"))}
	vnd.Assume(a.PacketIdentifier != 0)
	s := filler(edges[vnd.Choice("len", len(edges))])
	if vnd.Choice("where", 2) == 0 {
		a.ReasonString = s
	} else {
		a.UserProperties = primitives.PrimitiveStringMap{"k": s}
	}
	checkAck(a, vnd.Choice("kind", 4))
}

func checkAck(a packets.Puback, kind int) {
	name := ackNames[kind]
	if kind >= 2 {
		oneOf(byte(a.ReasonCode), 0, 0x92)
	} else {
		oneOf(byte(a.ReasonCode), 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99)
	}
	var w io.WriterTo
	q := a
	q.UserProperties = mine(a.UserProperties)
	switch kind {
	case 0:
		w = &q
	case 1:
		w = &packets.Pubrec{Puback: q}
	case 2:
		w = &packets.Pubrel{Puback: q}
	case 3:
		w = &packets.Pubcomp{Puback: q}
	}
	flags, c := encoded(name, w, byte(4+kind))
	if c == nil {
		return
	}
	if kind == 2 {
		vnd.Assert(flags == 2, name+": reserved header flags")
	} else {
		vnd.Assert(flags == 0, name+": reserved header flags")
	}
	vnd.Assert(c.U16() == uint16(a.PacketIdentifier), name+": packet identifier")
	var code byte
	var ps []ref.Prop
	if c.Left() > 0 {
		code = c.Byte()
	}
	if c.Left() > 0 {
		ps = c.Props()
	}
	vnd.Assert(!c.Bad, name+": properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(code == byte(a.ReasonCode), name+": reason code")
	vnd.Assert(ref.Allowed(ps, 0x1F, 0x26), name+": only admissible properties, none twice")
	str(name+": reason string", ps, 0x1F, a.ReasonString)
	users(name, ps, a.UserProperties)
	vnd.Assert(c.Left() == 0, name+": nothing follows the properties")
	vnd.Cover(name)
}

// ---- DISCONNECT, AUTH ----

// HDisconnect: DISCONNECT carries the reason and every property set.
func HDisconnect() {
	f := choose(4)
	f.maxStr = 2
	p := &packets.Disconnect{
		ReasonCode:            primitives.PrimitiveByte(oneOf(vnd.Byte("code"), 0, 4, 0x80, 0x81, 0x82, 0x83, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99)),
		SessionExpiryInterval: f.u32(0, "expiry"),
		ReasonString:          f.text(1, "reason"),
		UserProperties:        f.users(2, "user"),
		ServerReference:       f.text(3, "ref"),
	}
	checkDisconnect(p)
}

// HDiscLarge: lengths around the points where a length field grows.
func HDiscLarge() {
	s := filler(edges[vnd.Choice("len", len(edges))])
	code := primitives.PrimitiveByte(vnd.Choice("code", 2))
	if vnd.Choice("which", 2) == 0 {
		p := &packets.Disconnect{ReasonCode: code * 4, SessionExpiryInterval: primitives.PrimitiveUint32(vnd.U32("expiry"))}
		switch vnd.Choice("where", 3) {
		case 0:
			p.ReasonString = s
		case 1:
			p.ServerReference = s
		case 2:
			p.UserProperties = primitives.PrimitiveStringMap{s: ""}
		}
		checkDisconnect(p)
		return
	}
	p := &packets.Auth{AuthenticateReasonCode: code * 0x18, AuthenticationMethod: "m"}
	switch vnd.Choice("where", 4) {
	case 0:
		p.AuthenticationMethod = s
		vnd.Assume(len(s) > 0)
	case 1:
		p.AuthenticationData = s
	case 2:
		p.ReasonString = s
	case 3:
		p.UserProperties = primitives.PrimitiveStringMap{s: ""}
	}
	checkAuth(p)
}

func checkDisconnect(p *packets.Disconnect) {
	q := *p
	q.UserProperties = mine(p.UserProperties)
	flags, c := encoded("DISCONNECT", &q, 14)
	if c == nil {
		return
	}
	vnd.Assert(flags == 0, "DISCONNECT: reserved header flags")
	var code byte
	var ps []ref.Prop
	if c.Left() > 0 {
		code = c.Byte()
	}
	if c.Left() > 0 {
		ps = c.Props()
	}
	vnd.Assert(!c.Bad, "DISCONNECT: properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(code == byte(p.ReasonCode), "DISCONNECT: reason code")
	vnd.Assert(ref.Allowed(ps, 0x11, 0x1F, 0x26, 0x1C), "DISCONNECT: only DISCONNECT properties, none twice")
	num("DISCONNECT: session expiry interval", ps, 0x11, p.SessionExpiryInterval.Value())
	str("DISCONNECT: reason string", ps, 0x1F, p.ReasonString)
	str("DISCONNECT: server reference", ps, 0x1C, p.ServerReference)
	users("DISCONNECT", ps, p.UserProperties)
	vnd.Assert(c.Left() == 0, "DISCONNECT: nothing follows the properties")
	vnd.Cover("DISCONNECT")
}

// HAuth: AUTH carries the reason and every property set.
func HAuth() {
	f := choose(4)
	f.maxStr = 2
	p := &packets.Auth{
		AuthenticateReasonCode: primitives.PrimitiveByte(oneOf(vnd.Byte("code"), 0, 0x18, 0x19)),
		AuthenticationMethod:   f.text(0, "method"),
		AuthenticationData:     f.str(1, "data"),
		ReasonString:           f.text(2, "reason"),
		UserProperties:         f.users(3, "user"),
	}
	vnd.Assume(len(p.AuthenticationMethod) > 0 || len(p.AuthenticationData) == 0)
	checkAuth(p)
}

func checkAuth(p *packets.Auth) {
	q := *p
	q.UserProperties = mine(p.UserProperties)
	flags, c := encoded("AUTH", &q, 15)
	if c == nil {
		return
	}
	vnd.Assert(flags == 0, "AUTH: reserved header flags")
	var code byte
	var ps []ref.Prop
	if c.Left() > 0 {
		code = c.Byte()
		ps = c.Props()
	}
	vnd.Assert(!c.Bad, "AUTH: properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(code == byte(p.AuthenticateReasonCode), "AUTH: reason code")
	vnd.Assert(ref.Allowed(ps, 0x15, 0x16, 0x1F, 0x26), "AUTH: only AUTH properties, none twice")
	str("AUTH: authentication method", ps, 0x15, p.AuthenticationMethod)
	str("AUTH: authentication data", ps, 0x16, p.AuthenticationData)
	str("AUTH: reason string", ps, 0x1F, p.ReasonString)
	users("AUTH", ps, p.UserProperties)
	vnd.Assert(c.Left() == 0, "AUTH: nothing follows the properties")
	vnd.Cover("AUTH")
}

// ---- write errors ----

// HWriteError: when the connection fails at any byte, the encoder says so.
func HWriteError() {
	var w io.WriterTo
	var t packets.Topic
	t.SetFilter("a/b")
	up := primitives.PrimitiveStringMap{"k": "v"}
	switch vnd.Choice("packet", 7) {
	case 0:
		w = &packets.Connect{Version: packets.MQTT5, ClientId: "c", Username: "u", Password: "p", Will: "w", WillTopic: "t",
			WillDelayInterval: 1, WillMessageExpiryInterval: 1, WillContentType: "c", WillResponseTopic: "r", WillCorrelationData: "d", WillUserProperties: up,
			RequestResponseInformation: 1, RequestProblemInformation: 1, ReceiveMaximum: 1, TopicAliasMaximum: 1, SessionExpiryInterval: 1, MaximumPacketSize: 1,
			UserProperties: up, AuthenticationMethod: "m", AuthenticationData: "d"}
	case 1:
		w = &packets.Publish{QoS: 1, PacketIdentifier: 1, Topic: "t", Payload: []byte("pay"), MessageExpiryInterval: 1, TopicAlias: 1, ResponseTopic: "r",
			CorrelationData: "c", UserProperties: up, SubscriptionIdentifier: 300, ContentType: "c"}
	case 2:
		w = &packets.Subscribe{PacketIdentifier: 1, SubscriptionIdentifier: 1, UserProperties: up, Topics: []packets.Topic{t, t}}
	case 3:
		w = &packets.Unsubscribe{PacketIdentifier: 1, UserProperties: up, Topics: []packets.Topic{t, t}}
	case 4:
		a := packets.Puback{PacketIdentifier: 1, ReasonCode: 0x80, ReasonString: "r", UserProperties: up}
		switch vnd.Choice("ack", 4) {
		case 0:
			w = &a
		case 1:
			w = &packets.Pubrec{Puback: a}
		case 2:
			w = &packets.Pubrel{Puback: a}
		case 3:
			w = &packets.Pubcomp{Puback: a}
		}
	case 5:
		w = &packets.Disconnect{ReasonCode: 4, SessionExpiryInterval: 1, ReasonString: "r", UserProperties: up, ServerReference: "s"}
	case 6:
		w = &packets.Auth{AuthenticateReasonCode: 0x18, AuthenticationMethod: "m", AuthenticationData: "d", ReasonString: "r", UserProperties: up}
	}
	var buf bytes.Buffer
	_, err := w.WriteTo(&buf)
	vnd.Assert(err == nil, "write: valid packet is encoded")
	total := buf.Len()
	k := vnd.Choice("failing byte", total)
	s := &sink{limit: k, fail: errIO, once: vnd.Choice("once", 2) == 1}
	_, err = w.WriteTo(s)
	vnd.Assert(s.err, "write: an encoder writes the same packet again")
	vnd.Assert(err != nil, "write: a failed write is reported")
	vnd.Assert(len(s.got) >= k && vnd.EqBytes(s.got[:k], buf.Bytes()[:k]), "write: nothing is written out of order")
	vnd.Cover("failed")
}
