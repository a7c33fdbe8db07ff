package codec

import (
	"io"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

func decodeKinds(kinds ...int) {
	in := build(kinds[vnd.Choice("kind", len(kinds))], vnd.Param("props", 2))
	tail := []byte{0xC0, 0x00}
	s := &stream{b: append(append([]byte{}, in.b...), tail...), end: io.EOF}
	if d := in.decode(s); d != nil {
		in.check(d)
		vnd.Cover(in.name)
	}
}

// HDecodeConnack: any well-formed CONNACK decodes to what the server sent.
func HDecodeConnack() { decodeKinds(kConnack) }

// HDecodePublish: any well-formed PUBLISH decodes to what the server sent.
func HDecodePublish() { decodeKinds(kPublish) }

// HDecodeAcks: PUBACK, PUBREC, PUBREL and PUBCOMP in all their short forms.
func HDecodeAcks() { decodeKinds(kPuback, kPubrec, kPubrel, kPubcomp) }

// HDecodeSub: SUBACK and UNSUBACK.
func HDecodeSub() { decodeKinds(kSuback, kUnsuback) }

// HDecodeDisc: DISCONNECT and AUTH in all their short forms.
func HDecodeDisc() { decodeKinds(kDisconnect, kAuth) }

// boundary lengths at which a length field grows
var edges = []int{0, 1, 100, 110, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 16360, 16370, 16371, 16372, 16373, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 65530, 65535}

// HDecodePublishLarge: payloads and properties whose lengths cross the points
// where a length field grows, decoded with and without the header read first.
func HDecodePublishLarge() {
	n := edges[vnd.Choice("len", len(edges))]
	big := []byte(filler(n))
	in := &inbound{kind: kPublish, name: "PUBLISH", flags: 2, id: 7}
	in.topic = []byte("t")
	switch vnd.Choice("where", 3) {
	case 0:
		in.rest = big
	case 1:
		in.props = []ref.Prop{{ID: 0x09, S: big}}
		in.rest = []byte("payload")
	case 2:
		vnd.Assume(n > 0)
		in.topic = big
	}
	x := vnd.U32("expiry")
	in.props = append(in.props, ref.Prop{ID: 0x02, Num: x})
	body := ref.AppStr(nil, in.topic)
	body = ref.AppU16(body, in.id)
	body = ref.AppProps(body, in.props)
	body = append(body, in.rest...)
	in.seal(3, body)
	in.ownHeader()
}

// HDecodePublishOwnHeader: a PUBLISH decoder that reads the header itself.
func HDecodePublishOwnHeader() {
	in := build(kPublish, vnd.Param("props", 1))
	in.ownHeader()
}

func (in *inbound) ownHeader() {
	tail := []byte{0xC0, 0x00}
	s := &stream{b: append(append([]byte{}, in.b...), tail...), end: io.EOF}
	if vnd.Choice("header", 2) == 0 {
		if d := in.decode(s); d != nil {
			in.check(d)
			vnd.Cover("header read before")
		}
		return
	}
	var p packets.Publish
	n, err := p.ReadFrom(s)
	vnd.Assert(err == nil, "PUBLISH: well-formed packet is accepted")
	if err != nil {
		return
	}
	vnd.Assert(s.pos == len(in.b), "PUBLISH: exactly the packet is consumed")
	vnd.Assert(int(n) == len(in.b), "PUBLISH: reported count is the bytes consumed")
	in.check(&p)
	vnd.Cover("header read by the decoder")
}

// fragmented checks that a packet decodes the same however it is delivered.
func fragmented(kinds ...int) {
	in := build(kinds[vnd.Choice("kind", len(kinds))], vnd.Param("props", 1))
	s := &stream{b: in.b, end: io.EOF}
	switch vnd.Choice("delivery", 3+vnd.Param("three", 0)) {
	case 0:
		s.mode = 1
		vnd.Cover("byte by byte")
	case 1:
		s.mode = 2
		s.cut = 1 + vnd.Choice("cut", len(in.b)-1)
		vnd.Cover("two parts")
	case 2:
		s.eofData = true
		vnd.Cover("end reported with the last bytes")
	case 3:
		s.mode = 3
		s.cut = 1 + vnd.Choice("cut", len(in.b)-1)
		s.cut2 = 1 + vnd.Choice("cut", len(in.b)-1)
		vnd.Assume(s.cut < s.cut2)
	}
	if d := in.decode(s); d != nil {
		in.check(d)
		vnd.Cover(in.name)
	}
}

func HFragPublish() { fragmented(kPublish) }
func HFragConnack() { fragmented(kConnack) }
func HFragAcks()    { fragmented(kPuback, kPubrec, kPubrel, kPubcomp) }
func HFragOther()   { fragmented(kSuback, kUnsuback, kDisconnect, kAuth) }

// truncated checks that a packet cut short is never taken for a whole one.
func truncated(kinds ...int) {
	in := build(kinds[vnd.Choice("kind", len(kinds))], vnd.Param("props", 1))
	cut := vnd.Choice("cut", len(in.b))
	s := &stream{b: in.b[:cut], end: io.EOF}
	switch vnd.Choice("end", 3) {
	case 0:
		s.eofData = vnd.Choice("with data", 2) == 1
	case 1:
		s.end = errIO
		s.eofData = vnd.Choice("with data", 2) == 1
	case 2: // fails once
		s.end, s.rest = errIO, in.b[cut:]
	}
	var fh packets.FixedHeader
	if _, err := fh.ReadFrom(s); err != nil {
		vnd.Cover("header cut")
		return
	}
	if cut < in.body {
		vnd.Assert(false, in.name+": header cut short is refused")
		return
	}
	d := decoderFor(fh)
	if d == nil {
		return
	}
	_, err := d.ReadFrom(s)
	vnd.Assert(err != nil, in.name+": packet cut short is refused")
	vnd.Cover("body cut")
}

func HTruncPublish() { truncated(kPublish) }
func HTruncConnack() { truncated(kConnack) }
func HTruncAcks()    { truncated(kPuback, kPubrec, kPubrel, kPubcomp) }
func HTruncOther()   { truncated(kSuback, kUnsuback, kDisconnect, kAuth) }

// HTruncPublishOwnHeader: the same when the decoder reads the header itself.
func HTruncPublishOwnHeader() {
	in := build(kPublish, vnd.Param("props", 1))
	cut := vnd.Choice("cut", len(in.b))
	s := &stream{b: in.b[:cut], end: io.EOF, eofData: vnd.Choice("with data", 2) == 1}
	var p packets.Publish
	_, err := p.ReadFrom(s)
	vnd.Assert(err != nil, "PUBLISH: packet cut short is refused")
}

// hostile feeds an arbitrary body of arbitrary length to a decoder.
func hostile(typ packets.PacketType, name string) {
	n := vnd.Choice("remaining", vnd.Param("bytes", 6)+1)
	body := vnd.Bytes("body", n)
	flags := vnd.Byte("flags")
	vnd.Assume(flags <= 15)
	var fh packets.FixedHeader
	fh.Header = primitives.PrimitiveByte(byte(typ)<<4 | flags)
	fh.Remaining = primitives.VariableByteInt(n)
	tail := []byte{0xC0, 0x00, 0xC0, 0x00, 0xC0, 0x00, 0xC0, 0x00}
	s := &stream{b: append(append([]byte{}, body...), tail...), end: io.EOF}
	d := decoderFor(fh)
	cnt, err := d.ReadFrom(s)
	vnd.Assert(s.pos <= n, name+": nothing beyond the packet is read")
	if err == nil {
		vnd.Assert(wellFormed(byte(typ), flags, body), name+": a malformed packet is refused")
		vnd.Assert(s.pos == n, name+": an accepted packet is consumed entirely")
		vnd.Assert(int(cnt) == n, name+": reported count is the bytes consumed")
		vnd.Cover("accepted")
	} else {
		vnd.Cover("refused")
	}
}

// wellFormed reads a packet body by the structure of its type: every field lies
// within the packet, the properties are ones the packet may carry and end where
// the property length says, and nothing is left over. What the standard asks of
// the values beyond that is not looked at.
func wellFormed(typ, flags byte, body []byte) bool {
	c := &ref.Cur{B: body, Lax: true}
	var ids []byte
	rest := false // something may follow the properties
	switch packets.PacketType(typ) {
	case packets.CONNACK:
		ids = connackIDs
		c.U16()
		if c.Left() == 0 {
			return !c.Bad
		}
	case packets.PUBLISH:
		ids = publishIDs
		if flags>>1&3 == 3 {
			return false
		}
		c.Str()
		if flags>>1&3 != 0 {
			c.U16()
		}
		rest = true
	case packets.PUBACK, packets.PUBREC, packets.PUBREL, packets.PUBCOMP:
		ids = ackIDs
		c.U16()
		if c.Left() == 0 {
			return !c.Bad
		}
		c.Byte()
		if c.Left() == 0 {
			return true
		}
	case packets.SUBACK, packets.UNSUBACK:
		ids = ackIDs
		c.U16()
		rest = true
	case packets.DISCONNECT, packets.AUTH:
		ids = discIDs
		if packets.PacketType(typ) == packets.AUTH {
			ids = authIDs
		}
		if c.Left() == 0 {
			return true
		}
		c.Byte()
		if c.Left() == 0 {
			return true
		}
	}
	for _, p := range c.Props() {
		ok := false
		for _, id := range ids {
			ok = vnd.Or(ok, p.ID == id)
		}
		if !ok {
			return false
		}
	}
	if c.Bad {
		return false
	}
	switch packets.PacketType(typ) {
	case packets.SUBACK, packets.UNSUBACK:
		return c.Left() > 0
	}
	return rest || c.Left() == 0
}

func HHostileConnack()    { hostile(packets.CONNACK, "CONNACK") }
func HHostilePublish()    { hostile(packets.PUBLISH, "PUBLISH") }
func HHostileAck()        { hostile(packets.PUBACK+packets.PacketType(vnd.Choice("kind", 4)), "PUBACK") }
func HHostileSuback()     { hostile(packets.SUBACK, "SUBACK") }
func HHostileUnsuback()   { hostile(packets.UNSUBACK, "UNSUBACK") }
func HHostileDisconnect() { hostile(packets.DISCONNECT, "DISCONNECT") }
func HHostileAuth()       { hostile(packets.AUTH, "AUTH") }

// HHostileHeader: arbitrary first bytes; at most five are consumed.
func HHostileHeader() {
	b := vnd.Bytes("b", 7)
	s := &stream{b: b, end: io.EOF}
	var fh packets.FixedHeader
	n, err := fh.ReadFrom(s)
	vnd.Assert(s.pos <= 5, "header: at most five bytes are read")
	if err == nil {
		vnd.Assert(int(n) == s.pos, "header: reported count is the bytes consumed")
		vnd.Assert(byte(fh.Header) == b[0], "header: first byte")
		vnd.Assert(byte(fh.GetType()) == b[0]>>4, "header: packet type")
		vnd.Assert(byte(fh.GetFlags()) == b[0]&15, "header: flags")
		var v uint32
		for i := 1; i < s.pos; i++ {
			v |= uint32(b[i]&0x7f) << uint(7*(i-1))
			vnd.Assert((b[i]&0x80 != 0) == (i+1 < s.pos), "header: remaining length ends with its last byte")
		}
		vnd.Assert(uint32(fh.Remaining) == v, "header: remaining length value")
		vnd.Cover("accepted")
	} else {
		vnd.Assert(b[1]&0x80 != 0, "header: valid header is accepted")
		vnd.Cover("refused")
	}
}
