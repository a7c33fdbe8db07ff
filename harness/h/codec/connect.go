package codec

import (
	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// HConnect: a CONNECT packet with arbitrary optional fields decodes to them.
func HConnect() {
	f := choose(17)
	p := &packets.Connect{
		Version:      packets.MQTT5,
		CleanSession: vnd.Bool("clean"),
		KeepAlive:    primitives.PrimitiveUint16(vnd.U16("keepalive")),
		ClientId:     f.text(0, "clientid"),
		Username:     f.text(1, "user"),
		Password:     f.str(2, "pass"),

		Will:      f.str(3, "will"),
		WillTopic: "w",

		WillDelayInterval:         f.u32(4, "willdelay"),
		WillMessageExpiryInterval: f.u32(5, "willexpiry"),
		WillContentType:           f.text(6, "willtype"),
		WillResponseTopic:         f.topic(7, "willresp"),
		WillCorrelationData:       f.str(8, "willcorr"),
		WillUserProperties:        f.users(9, "willuser"),

		RequestResponseInformation: f.bit(10, "reqresp"),
		RequestProblemInformation:  f.bit(11, "reqprob"),
		ReceiveMaximum:             f.u16(12, "recvmax"),
		TopicAliasMaximum:          f.u16(13, "aliasmax"),
		SessionExpiryInterval:      f.u32(14, "expiry"),
		MaximumPacketSize:          f.u32(15, "maxpacket"),
		UserProperties:             f.users(16, "userprop"),
	}
	if f.arbitrary(3) {
		p.WillTopic = ps(topic("willtopic", 1+vnd.Choice("len.willtopic", 2)))
	}
	p.WillRetain = vnd.Bool("willretain")
	q := vnd.Byte("willqos")
	vnd.Assume(q <= 2)
	p.WillQos = packets.QoS(q)
	checkConnect(p)
}

// HConnectAuth: enhanced authentication fields of CONNECT.
func HConnectAuth() {
	p := &packets.Connect{Version: packets.MQTT5, ClientId: "c"}
	p.AuthenticationMethod = ps(utf8("method", vnd.Choice("len", 3)))
	p.AuthenticationData = primitives.PrimitiveString(vnd.String("data", vnd.Choice("len", 3)))
	p.ReceiveMaximum = primitives.PrimitiveUint16(vnd.U16("recvmax"))
	p.Will = primitives.PrimitiveString(vnd.String("will", vnd.Choice("len", 2)))
	p.WillTopic = "t"
	vnd.Assume(len(p.AuthenticationMethod) > 0 || len(p.AuthenticationData) == 0)
	checkConnect(p)
}

// HConnectLarge: lengths around the points where a length field grows.
func HConnectLarge() {
	lens := []int{0, 100, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 16350, 16371, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16384}
	p := &packets.Connect{Version: packets.MQTT5, ClientId: "c"}
	s := filler(lens[vnd.Choice("len", len(lens))])
	switch vnd.Choice("where", 12) {
	case 5:
		p.Username = s
	case 6:
		p.Password = s
	case 7:
		p.Will, p.WillTopic = s, "t"
	case 8:
		vnd.Assume(len(s) > 0)
		p.Will, p.WillTopic = "w", s
	case 9:
		p.Will, p.WillTopic, p.WillResponseTopic = "w", "t", s
	case 10:
		p.Will, p.WillTopic, p.WillCorrelationData = "w", "t", s
	case 11:
		p.AuthenticationMethod = s
	case 0:
		p.ClientId = s
	case 1:
		p.UserProperties = primitives.PrimitiveStringMap{"": s}
	case 2:
		p.Will, p.WillTopic, p.WillContentType = "w", "t", s
	case 3:
		p.Will, p.WillTopic, p.WillUserProperties = "w", "t", primitives.PrimitiveStringMap{s: "v"}
	case 4:
		p.AuthenticationMethod, p.AuthenticationData = "m", s
	}
	p.SessionExpiryInterval = primitives.PrimitiveUint32(vnd.U32("expiry"))
	checkConnect(p)
}

func checkConnect(p *packets.Connect) {
	q := *p // what is encoded is compared with what was asked for
	q.UserProperties, q.WillUserProperties = mine(p.UserProperties), mine(p.WillUserProperties)
	flags, c := encoded("CONNECT", &q, 1)
	if c == nil {
		return
	}
	vnd.Assert(flags == 0, "CONNECT: reserved header flags are zero")
	vnd.Assert(vnd.EqBytes(c.Str(), []byte("MQTT")), "CONNECT: protocol name")
	vnd.Assert(c.Byte() == 5, "CONNECT: protocol version")
	cf := c.Byte()
	ka := c.U16()
	ps := c.Props()
	vnd.Assert(!c.Bad, "CONNECT: properties are well formed")
	if c.Bad {
		return
	}
	vnd.Assert(ka == p.KeepAlive.Value(), "CONNECT: keep alive value")
	vnd.Assert(cf&1 == 0, "CONNECT: reserved flag is zero")
	vnd.Assert(cf>>1&1 == 1 == p.CleanSession, "CONNECT: clean start flag")
	vnd.Assert(ref.Allowed(ps, 0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16), "CONNECT: only CONNECT properties, none twice")
	num("CONNECT: session expiry interval", ps, 0x11, p.SessionExpiryInterval.Value())
	num("CONNECT: receive maximum", ps, 0x21, uint32(p.ReceiveMaximum.Value()))
	num("CONNECT: maximum packet size", ps, 0x27, p.MaximumPacketSize.Value())
	num("CONNECT: topic alias maximum", ps, 0x22, uint32(p.TopicAliasMaximum.Value()))
	num("CONNECT: request response information", ps, 0x19, uint32(p.RequestResponseInformation.Value()))
	num("CONNECT: request problem information", ps, 0x17, uint32(p.RequestProblemInformation.Value()))
	users("CONNECT", ps, p.UserProperties)
	str("CONNECT: authentication method", ps, 0x15, p.AuthenticationMethod)
	if len(p.AuthenticationMethod) == 0 {
		n, _ := ref.Count(ps, 0x16)
		vnd.Assert(n == 0, "CONNECT: no authentication data without a method")
	} else {
		str("CONNECT: authentication data", ps, 0x16, p.AuthenticationData)
	}
	id := c.Str()
	vnd.Assert(!c.Bad, "CONNECT: client identifier is present")
	vnd.Assert(vnd.EqBytes(id, []byte(p.ClientId)), "CONNECT: client identifier value")
	if cf>>2&1 == 1 {
		vnd.Cover("will")
		vnd.Assert(cf>>3&3 == byte(p.WillQos), "CONNECT: will QoS")
		vnd.Assert(cf>>5&1 == 1 == p.WillRetain, "CONNECT: will retain")
		wp := c.Props()
		vnd.Assert(!c.Bad, "CONNECT: will properties are well formed")
		if c.Bad {
			return
		}
		vnd.Assert(ref.Allowed(wp, 0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26), "CONNECT: only will properties, none twice")
		num("CONNECT: will delay interval", wp, 0x18, p.WillDelayInterval.Value())
		num("CONNECT: will message expiry interval", wp, 0x02, p.WillMessageExpiryInterval.Value())
		num("CONNECT: will payload format", wp, 0x01, 0)
		str("CONNECT: will content type", wp, 0x03, p.WillContentType)
		str("CONNECT: will response topic", wp, 0x08, p.WillResponseTopic)
		str("CONNECT: will correlation data", wp, 0x09, p.WillCorrelationData)
		users("CONNECT: will", wp, p.WillUserProperties)
		t := c.Str()
		m := c.Str()
		vnd.Assert(!c.Bad, "CONNECT: will topic and payload are present")
		vnd.Assert(vnd.EqBytes(t, []byte(p.WillTopic)), "CONNECT: will topic value")
		vnd.Assert(vnd.EqBytes(m, []byte(p.Will)), "CONNECT: will payload value")
	} else {
		vnd.Cover("no will")
		vnd.Assert(len(p.Will) == 0, "CONNECT: will flag is set when there is a will")
		vnd.Assert(cf>>3&7 == 0, "CONNECT: will QoS and retain are zero without a will")
	}
	if cf>>7 == 1 {
		vnd.Cover("user name")
		vnd.Assert(vnd.EqBytes(c.Str(), []byte(p.Username)), "CONNECT: user name value")
	} else {
		vnd.Assert(len(p.Username) == 0, "CONNECT: user name is sent when set")
	}
	if cf>>6&1 == 1 {
		vnd.Cover("password")
		vnd.Assert(vnd.EqBytes(c.Str(), []byte(p.Password)), "CONNECT: password value")
	} else {
		vnd.Assert(len(p.Password) == 0, "CONNECT: password is sent when set")
	}
	vnd.Assert(!c.Bad, "CONNECT: payload fields are complete")
	vnd.Assert(c.Left() == 0, "CONNECT: nothing follows the payload")
}
