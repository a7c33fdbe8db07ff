package codec

import (
	"bytes"
	"io"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// stream is a connection delivering data in fragments.
type stream struct {
	b       []byte
	pos     int
	mode    int // 0 whole, 1 byte by byte, 2 in two parts, 3 three parts
	cut     int
	cut2    int
	eofData bool  // end reported together with the last bytes
	end     error // reported at the end of the data
	reads   int
	rest    []byte // what follows after the end was reported once
}

func (s *stream) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= len(s.b) {
		if s.rest != nil {
			s.b, s.rest = append(append([]byte{}, s.b...), s.rest...), nil
		}
		return 0, s.end
	}
	n := len(s.b) - s.pos
	switch s.mode {
	case 1:
		n = 1
	case 2, 3:
		if s.pos < s.cut && s.pos+n > s.cut {
			n = s.cut - s.pos
		}
		if s.mode == 3 && s.pos < s.cut2 && s.pos+n > s.cut2 {
			n = s.cut2 - s.pos
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.eofData && s.pos == len(s.b) {
		return n, s.end
	}
	return n, nil
}

// sink is a connection that fails after accepting some bytes or writes.
type sink struct {
	got   []byte
	limit int // bytes accepted before failing, -1 unlimited
	fail  error
	err   bool
	once  bool // goes on after failing once
}

func (s *sink) Write(p []byte) (int, error) {
	if s.limit >= 0 && len(s.got)+len(p) > s.limit {
		n := s.limit - len(s.got)
		s.got = append(s.got, p[:n]...)
		s.err = true
		if s.once {
			s.limit = -1
		}
		return n, s.fail
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

// header reads the fixed header as the client does before it picks a decoder.
func header(name string, s io.Reader) (packets.FixedHeader, int) {
	var fh packets.FixedHeader
	n, err := fh.ReadFrom(s)
	vnd.Assert(err == nil, name+": fixed header is accepted")
	vnd.Assume(err == nil)
	return fh, int(n)
}

// decoder is what all inbound packets implement.
type decoder interface {
	ReadFrom(io.Reader) (int64, error)
}

// kinds of inbound packets
const (
	kConnack = iota
	kPublish
	kPuback
	kPubrec
	kPubrel
	kPubcomp
	kSuback
	kUnsuback
	kDisconnect
	kAuth
	nKinds
)

// decoderFor gives an empty packet of the type with the header in place.
func decoderFor(fh packets.FixedHeader) decoder {
	switch fh.GetType() {
	case packets.CONNACK:
		return &packets.Connack{Header: fh}
	case packets.PUBLISH:
		return &packets.Publish{Header: fh}
	case packets.PUBACK:
		return &packets.Puback{Header: fh}
	case packets.PUBREC:
		return &packets.Pubrec{Puback: packets.Puback{Header: fh}}
	case packets.PUBREL:
		return &packets.Pubrel{Puback: packets.Puback{Header: fh}}
	case packets.PUBCOMP:
		return &packets.Pubcomp{Puback: packets.Puback{Header: fh}}
	case packets.SUBACK:
		return &packets.Suback{Header: fh}
	case packets.UNSUBACK:
		return &packets.Unsuback{Header: fh}
	case packets.DISCONNECT:
		return &packets.Disconnect{Header: fh}
	case packets.AUTH:
		return &packets.Auth{Header: fh}
	}
	return nil
}

var (
	connackIDs = []byte{0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1F, 0x26, 0x28, 0x29, 0x2A, 0x13, 0x1A, 0x1C, 0x15, 0x16}
	publishIDs = []byte{0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03}
	ackIDs     = []byte{0x1F, 0x26}
	discIDs    = []byte{0x11, 0x1F, 0x26, 0x1C}
	authIDs    = []byte{0x15, 0x16, 0x1F, 0x26}
)

// inbound is a well-formed packet as the server may send it.
type inbound struct {
	kind  int
	name  string
	b     []byte // the encoded packet
	body  int    // offset of the part after the fixed header
	props []ref.Prop
	id    uint16
	code  byte
	flags byte
	rest  []byte // payload, reason codes
	topic []byte
}

func (in *inbound) seal(typ byte, body []byte) *inbound {
	in.b = ref.Packet(typ, in.flags, body)
	in.body = len(in.b) - len(body)
	return in
}

var ackNames = []string{"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}

// build gives an arbitrary well-formed packet of the kind with up to max properties.
func build(kind, max int) *inbound {
	in := &inbound{kind: kind}
	var body []byte
	switch kind {
	case kConnack:
		in.name = "CONNACK"
		in.flags = vnd.Byte("session")
		vnd.Assume(in.flags <= 1)
		in.code = oneOf(vnd.Byte("code"), 0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F)
		vnd.Assume(vnd.Or(in.code == 0, in.flags == 0))
		in.props = pick("p", connackIDs, max)
		body = append(body, in.flags, in.code)
		sess := in.flags
		in.flags = 0
		body = ref.AppProps(body, in.props)
		in.seal(2, body)
		in.flags = sess
		return in
	case kPublish:
		in.name = "PUBLISH"
		in.flags = vnd.Byte("flags")
		vnd.Assume(in.flags <= 15)
		qos := vnd.Choice("qos", 3)
		vnd.Assume(in.flags>>1&3 == byte(qos))
		vnd.Assume(vnd.Or(qos != 0, in.flags&8 == 0))
		in.topic = topic("topic", 1+vnd.Choice("len.topic", vnd.Param("maxtopic", 2)))
		body = ref.AppStr(body, in.topic)
		if qos > 0 {
			in.id = vnd.U16("id")
			vnd.Assume(in.id != 0)
			body = ref.AppU16(body, in.id)
		}
		in.props = pick("p", publishIDs, max)
		body = ref.AppProps(body, in.props)
		in.rest = vnd.Bytes("payload", vnd.Choice("len.payload", vnd.Param("maxpayload", 2)+1))
		body = append(body, in.rest...)
		return in.seal(3, body)
	case kPuback, kPubrec, kPubrel, kPubcomp:
		in.name = ackNames[kind-kPuback]
		in.id = vnd.U16("id")
		vnd.Assume(in.id != 0)
		if kind == kPubrel {
			in.flags = 2
		}
		body = ref.AppU16(body, in.id)
		switch form := vnd.Choice("form", 3); form {
		case 0: // identifier alone: success
		default:
			in.code = vnd.Byte("code")
			if kind == kPubrel || kind == kPubcomp {
				oneOf(in.code, 0, 0x92)
			} else {
				oneOf(in.code, 0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99)
			}
			body = append(body, in.code)
			if form == 2 {
				in.props = pick("p", ackIDs, max)
				body = ref.AppProps(body, in.props)
			}
		}
		return in.seal(byte(4+kind-kPuback), body)
	case kSuback, kUnsuback:
		in.name = "SUBACK"
		typ := byte(9)
		if kind == kUnsuback {
			in.name, typ = "UNSUBACK", 11
		}
		in.id = vnd.U16("id")
		vnd.Assume(in.id != 0)
		body = ref.AppU16(body, in.id)
		in.props = pick("p", ackIDs, max)
		body = ref.AppProps(body, in.props)
		if vnd.Param("many", 0) == 1 {
			in.rest = bytes.Repeat([]byte{0}, 1+edges[vnd.Choice("n.codes", len(edges))])
			in.rest[len(in.rest)-1] = vnd.Byte("last")
			return in.seal(typ, append(body, in.rest...))
		}
		in.rest = vnd.Bytes("codes", 1+vnd.Choice("n.codes", vnd.Param("maxcodes", 3)))
		for _, c := range in.rest {
			if kind == kSuback {
				oneOf(c, 0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2)
			} else {
				oneOf(c, 0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91)
			}
		}
		body = append(body, in.rest...)
		return in.seal(typ, body)
	case kDisconnect:
		in.name = "DISCONNECT"
		form := vnd.Choice("form", 3)
		if form > 0 {
			in.code = oneOf(vnd.Byte("code"), 0, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2)
			body = append(body, in.code)
		}
		if form == 2 {
			in.props = pick("p", discIDs, max)
			body = ref.AppProps(body, in.props)
		}
		return in.seal(14, body)
	case kAuth:
		in.name = "AUTH"
		if vnd.Choice("form", 2) == 1 {
			in.code = oneOf(vnd.Byte("code"), 0, 0x18, 0x19)
			body = append(body, in.code)
			in.props = pick("p", authIDs, max)
			body = ref.AppProps(body, in.props)
		}
		return in.seal(15, body)
	}
	return in
}

// decode reads the packet from the stream and checks that all of it, and
// nothing more, was consumed.
func (in *inbound) decode(s *stream) decoder {
	fh, hn := header(in.name, s)
	vnd.Assert(hn == in.body, in.name+": fixed header count")
	d := decoderFor(fh)
	vnd.Assert(d != nil, in.name+": packet type")
	if d == nil {
		return nil
	}
	n, err := d.ReadFrom(s)
	vnd.Assert(err == nil, in.name+": well-formed packet is accepted")
	if err != nil {
		return nil
	}
	vnd.Assert(s.pos == len(in.b), in.name+": exactly the packet is consumed")
	vnd.Assert(int(n) == len(in.b)-in.body, in.name+": reported count is the bytes consumed")
	return d
}

// check compares a decoded packet with what was sent.
func (in *inbound) check(d decoder) {
	n := in.name
	ps := in.props
	switch p := d.(type) {
	case *packets.Connack:
		vnd.Assert(p.SessionPresent == (in.flags&1 == 1), n+": session present")
		vnd.Assert(byte(p.ReasonCode) == in.code, n+": reason code")
		gotNum(n+": session expiry interval", ps, 0x11, uint32(p.SessionExpiryInterval))
		gotNum(n+": receive maximum", ps, 0x21, uint32(p.ReceiveMaximum))
		gotNum(n+": maximum QoS", ps, 0x24, uint32(p.MaximumQoS))
		gotNum(n+": retain available", ps, 0x25, uint32(p.RetainAvailable))
		gotNum(n+": maximum packet size", ps, 0x27, uint32(p.MaximumPacketSize))
		gotStr(n+": assigned client identifier", ps, 0x12, p.ClientId)
		gotNum(n+": topic alias maximum", ps, 0x22, uint32(p.TopicAliasMaximum))
		gotStr(n+": reason string", ps, 0x1F, p.ReasonString)
		gotNum(n+": wildcard subscriptions", ps, 0x28, uint32(p.WildcardSubscriptions))
		gotNum(n+": subscription identifiers", ps, 0x29, uint32(p.SubscriptionIdentifiers))
		gotNum(n+": shared subscriptions", ps, 0x2A, uint32(p.SharedSubscriptions))
		gotNum(n+": server keep alive", ps, 0x13, uint32(p.ServerKeepAlive))
		gotStr(n+": response information", ps, 0x1A, p.ResponseInformation)
		gotStr(n+": server reference", ps, 0x1C, p.ServerReference)
		gotStr(n+": authentication method", ps, 0x15, p.AuthenticationMethod)
		gotStr(n+": authentication data", ps, 0x16, p.AuthenticationData)
		gotUsers(n, ps, p.UserProperties)
	case *packets.Publish:
		vnd.Assert(p.Retain == (in.flags&1 == 1), n+": retain flag")
		vnd.Assert(byte(p.QoS) == in.flags>>1&3, n+": QoS")
		vnd.Assert(p.Duplicate == (in.flags>>3&1 == 1), n+": duplicate flag")
		vnd.Assert(vnd.EqBytes([]byte(p.Topic), in.topic), n+": topic name")
		vnd.Assert(uint16(p.PacketIdentifier) == in.id, n+": packet identifier")
		vnd.Assert(vnd.EqBytes(p.Payload, in.rest), n+": payload")
		gotNum(n+": message expiry interval", ps, 0x02, uint32(p.MessageExpiryInterval))
		gotNum(n+": topic alias", ps, 0x23, uint32(p.TopicAlias))
		gotStr(n+": response topic", ps, 0x08, p.ResponseTopic)
		gotStr(n+": correlation data", ps, 0x09, p.CorrelationData)
		gotNum(n+": subscription identifier", ps, 0x0B, uint32(p.SubscriptionIdentifier))
		gotStr(n+": content type", ps, 0x03, p.ContentType)
		gotUsers(n, ps, p.UserProperties)
	case *packets.Puback:
		in.checkAck(p)
	case *packets.Pubrec:
		in.checkAck(&p.Puback)
	case *packets.Pubrel:
		in.checkAck(&p.Puback)
	case *packets.Pubcomp:
		in.checkAck(&p.Puback)
	case *packets.Suback:
		in.checkCodes(uint16(p.PacketIdentifier), p.ReasonString, p.UserProperties, p.ReasonCodes)
	case *packets.Unsuback:
		in.checkCodes(uint16(p.PacketIdentifier), p.ReasonString, p.UserProperties, p.ReasonCodes)
	case *packets.Disconnect:
		vnd.Assert(byte(p.ReasonCode) == in.code, n+": reason code")
		gotNum(n+": session expiry interval", ps, 0x11, uint32(p.SessionExpiryInterval))
		gotStr(n+": reason string", ps, 0x1F, p.ReasonString)
		gotStr(n+": server reference", ps, 0x1C, p.ServerReference)
		gotUsers(n, ps, p.UserProperties)
	case *packets.Auth:
		vnd.Assert(byte(p.AuthenticateReasonCode) == in.code, n+": reason code")
		gotStr(n+": authentication method", ps, 0x15, p.AuthenticationMethod)
		gotStr(n+": authentication data", ps, 0x16, p.AuthenticationData)
		gotStr(n+": reason string", ps, 0x1F, p.ReasonString)
		gotUsers(n, ps, p.UserProperties)
	default:
		vnd.Assert(false, n+": packet type")
	}
}

func (in *inbound) checkAck(p *packets.Puback) {
	vnd.Assert(uint16(p.PacketIdentifier) == in.id, in.name+": packet identifier")
	vnd.Assert(byte(p.ReasonCode) == in.code, in.name+": reason code")
	gotStr(in.name+": reason string", in.props, 0x1F, p.ReasonString)
	gotUsers(in.name, in.props, p.UserProperties)
}

func (in *inbound) checkCodes(id uint16, reason primitives.PrimitiveString, users primitives.PrimitiveStringMap, codes []byte) {
	vnd.Assert(id == in.id, in.name+": packet identifier")
	gotStr(in.name+": reason string", in.props, 0x1F, reason)
	gotUsers(in.name, in.props, users)
	vnd.Assert(vnd.EqBytes(codes, in.rest), in.name+": reason codes")
}
