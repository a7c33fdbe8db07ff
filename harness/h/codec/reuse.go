package codec

import (
	"bytes"
	"io"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// once encodes a packet whose bytes do not matter, maybe in vain.
func once(w io.WriterTo) {
	if k := vnd.Choice("first encoding fails at", 5); k > 0 {
		w.WriteTo(&sink{limit: 4 * k, fail: errIO})
		return
	}
	var buf bytes.Buffer
	_, err := w.WriteTo(&buf)
	vnd.Assert(err == nil, "reuse: valid packet is encoded")
}

// HReuse: a packet that was encoded with other values before encodes what it
// holds now.
func HReuse() {
	up := primitives.PrimitiveStringMap{"old": "value"}
	switch vnd.Choice("kind", 6) {
	case 0:
		p := &packets.Publish{Retain: true, QoS: 2, PacketIdentifier: 7, Topic: "old/topic", Payload: []byte("old payload"), MessageExpiryInterval: 1,
			TopicAlias: 1, ResponseTopic: "r", CorrelationData: "c", UserProperties: up, SubscriptionIdentifier: 300, ContentType: "c"}
		once(p)
		v := publishFields()
		p.Retain, p.QoS, p.Duplicate, p.Topic, p.PacketIdentifier, p.Payload = v.Retain, v.QoS, v.Duplicate, v.Topic, v.PacketIdentifier, v.Payload
		p.MessageExpiryInterval, p.TopicAlias, p.ResponseTopic, p.CorrelationData = v.MessageExpiryInterval, v.TopicAlias, v.ResponseTopic, v.CorrelationData
		p.UserProperties, p.SubscriptionIdentifier, p.ContentType = v.UserProperties, v.SubscriptionIdentifier, v.ContentType
		checkPublish(p)
	case 1:
		var t packets.Topic
		t.SetFilter("old")
		p := &packets.Subscribe{PacketIdentifier: 9, SubscriptionIdentifier: 300, UserProperties: up, Topics: []packets.Topic{t, t}}
		once(p)
		f := choose(2)
		p.PacketIdentifier = primitives.PrimitiveUint16(vnd.U16("id"))
		vnd.Assume(p.PacketIdentifier != 0)
		p.UserProperties, p.SubscriptionIdentifier = f.users(1, "user"), 0
		if f.arbitrary(0) {
			p.SubscriptionIdentifier = primitives.VariableByteInt(vnd.U32("subid"))
			vnd.Assume(p.SubscriptionIdentifier <= 268435455)
		}
		var subs []sub
		p.Topics, subs = topics()
		checkSubscribe(p, subs)
	case 2:
		var t packets.Topic
		t.SetFilter("old")
		p := &packets.Unsubscribe{PacketIdentifier: 9, UserProperties: up, Topics: []packets.Topic{t, t}}
		once(p)
		f := choose(1)
		p.PacketIdentifier = primitives.PrimitiveUint16(vnd.U16("id"))
		vnd.Assume(p.PacketIdentifier != 0)
		p.UserProperties = f.users(0, "user")
		var subs []sub
		p.Topics, subs = topics()
		checkUnsubscribe(p, subs)
	case 3:
		p := &packets.Disconnect{ReasonCode: 4, SessionExpiryInterval: 1, ReasonString: "r", UserProperties: up, ServerReference: "s"}
		once(p)
		f := choose(4)
		p.ReasonCode = primitives.PrimitiveByte(oneOf(vnd.Byte("code"), 0, 4, 0x81, 0x93))
		p.SessionExpiryInterval, p.ReasonString = f.u32(0, "expiry"), f.text(1, "reason")
		p.UserProperties, p.ServerReference = f.users(2, "user"), f.text(3, "ref")
		checkDisconnect(p)
	case 4:
		p := &packets.Auth{AuthenticateReasonCode: 0x18, AuthenticationMethod: "m", AuthenticationData: "d", ReasonString: "r", UserProperties: up}
		once(p)
		f := choose(3)
		p.AuthenticateReasonCode = primitives.PrimitiveByte(oneOf(vnd.Byte("code"), 0, 0x18, 0x19))
		p.AuthenticationMethod, p.AuthenticationData = f.text(0, "method"), ""
		p.ReasonString, p.UserProperties = f.text(1, "reason"), f.users(2, "user")
		checkAuth(p)
	case 5:
		p := &packets.Connect{Version: packets.MQTT5, CleanSession: true, KeepAlive: 3, ClientId: "old", Username: "u", Password: "p", Will: "w", WillTopic: "t",
			WillQos: 2, WillRetain: true, WillDelayInterval: 1, WillUserProperties: up, SessionExpiryInterval: 1, UserProperties: up, AuthenticationMethod: "m"}
		once(p)
		f := choose(6)
		p.CleanSession, p.WillRetain, p.WillQos = vnd.Bool("clean"), false, 0
		p.KeepAlive = primitives.PrimitiveUint16(vnd.U16("keepalive"))
		p.ClientId, p.Username, p.Password = f.text(0, "clientid"), f.text(1, "user"), f.str(2, "pass")
		p.Will, p.SessionExpiryInterval, p.UserProperties = f.str(3, "will"), f.u32(4, "expiry"), f.users(5, "user")
		p.WillUserProperties, p.AuthenticationMethod = nil, ""
		checkConnect(p)
	}
}
