package client

import (
	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// parcel is a packet of any kind from the server and what is in it.
type parcel struct {
	kind           int
	flags          byte
	id             uint16
	code           byte
	topic, payload []byte
	key, value     []byte
	corr           []byte
}

const parcels = 9

func newParcel(kind int, name string) *parcel {
	p := &parcel{kind: kind, id: vnd.U16(name + ".id"), code: vnd.Byte(name + ".code")}
	vnd.Assume(p.id != 0)
	vnd.Assume(p.code < 0x80)
	p.topic = vnd.Bytes(name+".topic", 1)
	vnd.Assume(validTopic(p.topic))
	vnd.Assume(vnd.And(p.topic[0] < 0x80, p.topic[0] != '$')) // what "#" matches
	p.payload = vnd.Bytes(name+".payload", vnd.Choice(name+".len", 2)*2)
	p.key, p.value, p.corr = vnd.Bytes(name+".key", 1), vnd.Bytes(name+".value", 1), vnd.Bytes(name+".corr", 1)
	for _, x := range [][]byte{p.key, p.value} {
		vnd.Assume(vnd.And(x[0] >= 0x20, x[0] < 0x7F))
	}
	if kind < 3 {
		p.flags = byte(kind) << 1
	}
	return p
}

// bytes is the packet on the wire.
func (p *parcel) bytes() []byte {
	user := ref.Prop{ID: 0x26, S: p.key, V: p.value}
	switch p.kind {
	case 0, 1, 2:
		b := ref.AppStr(nil, p.topic)
		if p.kind > 0 {
			b = ref.AppU16(b, p.id)
		}
		b = ref.AppProps(b, []ref.Prop{{ID: 0x09, S: p.corr}, user})
		return ref.Packet(3, p.flags, append(b, p.payload...))
	case 3, 4, 5:
		t := []byte{4, 7, 9}[p.kind-3]
		b := ref.AppU16(nil, p.id)
		if t == 9 {
			return ref.Packet(t, 0, append(ref.AppProps(b, []ref.Prop{user}), p.code))
		}
		return ref.Packet(t, 0, ref.AppProps(append(b, p.code), []ref.Prop{user}))
	case 6:
		b := ref.AppU16(nil, p.id)
		return ref.Packet(11, 0, append(ref.AppProps(b, []ref.Prop{user}), p.code))
	case 7:
		return ref.Packet(15, 0, ref.AppProps([]byte{0x18}, []ref.Prop{{ID: 0x16, S: p.corr}, user}))
	}
	return ref.Packet(6, 2, ref.AppProps(append(ref.AppU16(nil, p.id), p.code), []ref.Prop{user}))
}

func (p *parcel) user(l map[string]string) bool {
	ok := len(l) == 1
	for k, v := range l {
		ok = vnd.And(ok, vnd.And(vnd.EqBytes([]byte(k), p.key), vnd.EqBytes([]byte(v), p.value)))
	}
	return ok
}

// is tells whether an event carries the packet.
func (p *parcel) is(e *mqtt.Event) bool {
	l := map[string]string{}
	ok := false
	switch d := e.Data.(type) {
	case *packets.Publish:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind < 3 && vnd.And(vnd.And(vnd.EqBytes([]byte(d.Topic), p.topic), vnd.EqBytes(d.Payload, p.payload)),
			vnd.And(vnd.EqBytes([]byte(d.CorrelationData), p.corr), vnd.And(byte(d.QoS) == p.flags>>1, p.kind == 0 || uint16(d.PacketIdentifier) == p.id)))
	case *packets.Puback:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind == 3 && vnd.And(uint16(d.PacketIdentifier) == p.id, byte(d.ReasonCode) == p.code)
	case *packets.Pubcomp:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind == 4 && vnd.And(uint16(d.PacketIdentifier) == p.id, byte(d.ReasonCode) == p.code)
	case *packets.Suback:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind == 5 && len(d.ReasonCodes) == 1 && vnd.And(uint16(d.PacketIdentifier) == p.id, byte(d.ReasonCodes[0]) == p.code)
	case *packets.Unsuback:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind == 6 && len(d.ReasonCodes) == 1 && vnd.And(uint16(d.PacketIdentifier) == p.id, byte(d.ReasonCodes[0]) == p.code)
	case *packets.Auth:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind == 7 && vnd.And(byte(d.AuthenticateReasonCode) == 0x18, vnd.EqBytes([]byte(d.AuthenticationData), p.corr))
	case *packets.Pubrel:
		for k, v := range d.UserProperties {
			l[string(k)] = string(v)
		}
		ok = p.kind == 8 && vnd.And(uint16(d.PacketIdentifier) == p.id, byte(d.ReasonCode) == p.code)
	}
	return vnd.And(ok, p.user(l))
}

// HKept: a packet that was delivered stays as it was while others arrive and
// the client goes on.
func HKept() {
	nc := newConn()
	c := online(nc, nil)
	a := c.CreateEventChannel(4)
	b := c.CreateEventChannel(4)
	subscribe(c, nc, []mqtt.Topic{bound("#", b)}, 0)
	empty(a, b)
	first := newParcel(vnd.Choice("first", parcels), "first")
	second := newParcel(vnd.Choice("second", parcels), "second")
	// a QoS 2 message with an identifier in use is a repetition
	vnd.Assume(vnd.Not(vnd.And(first.kind == 2 && second.kind == 2, first.id == second.id)))
	nc.feed(first.bytes()...)
	vnd.Assert(poll(c) == nil, "kept: packet is processed")
	e, ok := drain(a)
	vnd.Assert(ok, "kept: packet is signalled")
	if !ok {
		return
	}
	vnd.Assert(first.is(e), "kept: the event carries the packet")
	nc.feed(second.bytes()...)
	vnd.Assert(poll(c) == nil, "kept: packet is processed")
	e2, ok := drain(a)
	vnd.Assert(ok, "kept: packet is signalled")
	if !ok {
		return
	}
	vnd.Assert(second.is(e2), "kept: the event carries the packet")
	vnd.Assert(first.is(e), "kept: a packet that was delivered does not change later")
	// the client sends and ends its connection
	ctx, cancel := within(1e9)
	defer cancel()
	switch vnd.Choice("then", 3) {
	case 0:
		c.Publish(ctx, &packets.Publish{QoS: 1, Topic: "other", Payload: []byte("other payload")})
	case 1:
		c.Disconnect(ctx, true)
		nc.reopen()
		handshake(c, nc, nil)
	case 2:
		nc.eof = true
		c.Poll(ctx)
	}
	vnd.Assert(vnd.And(first.is(e), second.is(e2)), "kept: a packet that was delivered does not change later")
	for _, p := range []*parcel{first, second} {
		if p.kind < 3 {
			x, ok := drain(b)
			vnd.Assert(ok && p.is(x), "kept: a message waiting in a channel does not change")
			vnd.Cover("message")
		}
	}
	vnd.Cover("kept")
}
