package codec

import (
	"bytes"
	"io"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// prim checks a primitive against its expected wire form, plain and as a property.
func prim(name string, p, q primitives.Primitive, want []byte) {
	var buf bytes.Buffer
	n, err := p.WriteTo(&buf)
	vnd.Assert(err == nil, name+": value is written")
	vnd.Assert(vnd.EqBytes(buf.Bytes(), want), name+": wire form")
	vnd.Assert(int(n) == len(want), name+": reported count equals bytes written")
	vnd.Assert(int(p.Length(false)) == len(want), name+": Length agrees with the encoding")

	id := vnd.Byte("id")
	var prop bytes.Buffer
	n, err = p.WriteToAsProperty(id, &prop)
	vnd.Assert(err == nil, name+": property is written")
	vnd.Assert(vnd.EqBytes(prop.Bytes(), append([]byte{id}, want...)), name+": property wire form")
	vnd.Assert(int(n) == len(want)+1, name+": reported property count equals bytes written")
	vnd.Assert(int(p.Length(true)) == len(want)+1, name+": property Length agrees with the encoding")

	s := &stream{b: append(append([]byte{}, want...), 0xAA, 0xAA), end: io.EOF}
	switch vnd.Choice("delivery", 3) {
	case 1:
		s.mode = 1
	case 2:
		s.b = want
		s.eofData = true
	}
	n, err = q.ReadFrom(s)
	vnd.Assert(err == nil, name+": own encoding is accepted")
	vnd.Assert(s.pos == len(want), name+": exactly the encoding is consumed")
	vnd.Assert(int(n) == len(want), name+": reported count is the bytes consumed")
	var again bytes.Buffer
	q.WriteTo(&again)
	vnd.Assert(vnd.EqBytes(again.Bytes(), want), name+": round trip")

	// cut short
	k := vnd.Choice("cut", len(want))
	s = &stream{b: want[:k], end: io.EOF, eofData: vnd.Choice("with data", 2) == 1}
	_, err = q.ReadFrom(s)
	vnd.Assert(err != nil, name+": encoding cut short is refused")
	// connection failing
	k = vnd.Choice("failing byte", len(want)+1)
	w := &sink{limit: k, fail: errIO}
	if k < len(want) {
		_, err = p.WriteTo(w)
		vnd.Assert(err != nil, name+": a failed write is reported")
	} else {
		_, err = p.WriteToAsProperty(id, w)
		vnd.Assert(err != nil, name+": a failed property write is reported")
	}
	vnd.Cover(name)
}

// HPrimNumbers: one, two and four byte integers.
func HPrimNumbers() {
	switch vnd.Choice("kind", 3) {
	case 0:
		x := vnd.Byte("x")
		p := primitives.PrimitiveByte(x)
		vnd.Assert(p.Value() == x, "byte: value")
		vnd.Assert(p.Bool() == (x != 0), "byte: truth value")
		var q primitives.PrimitiveByte
		prim("byte", &p, &q, []byte{x})
		vnd.Assert(q == p, "byte: round trip")
	case 1:
		x := vnd.U16("x")
		p := primitives.PrimitiveUint16(x)
		vnd.Assert(p.Value() == x, "two-byte integer: value")
		var q primitives.PrimitiveUint16
		prim("two-byte integer", &p, &q, []byte{byte(x >> 8), byte(x)})
	case 2:
		x := vnd.U32("x")
		p := primitives.PrimitiveUint32(x)
		vnd.Assert(p.Value() == x, "four-byte integer: value")
		var q primitives.PrimitiveUint32
		prim("four-byte integer", &p, &q, []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)})
	}
}

// HPrimString: length-prefixed strings with arbitrary content.
func HPrimString() {
	n := vnd.Choice("len", vnd.Param("maxlen", 4)+1)
	b := vnd.Bytes("s", n)
	if n == 2 {
		b = utf8("t", 2)
	}
	for i := range b {
		vnd.Assume(vnd.Or(n == 2, b[i] < 0x80))
		vnd.Assume(b[i] != 0)
	}
	p := primitives.PrimitiveString(b)
	vnd.Assert(vnd.EqStr(p.String(), string(b)), "string: value")
	var q primitives.PrimitiveString
	prim("string", &p, &q, append([]byte{byte(n >> 8), byte(n)}, b...))
}

// HPrimStringAny: a string of any length: announced exactly, or refused.
func HPrimStringAny() {
	s := vnd.LazyString("s", 1<<20)
	p := primitives.PrimitiveString(s)
	var t tally
	var n int64
	var err error
	prop := vnd.Choice("property", 2)
	if prop == 1 {
		n, err = p.WriteToAsProperty(0x1F, &t)
	} else {
		n, err = p.WriteTo(&t)
	}
	if len(s) > 65535 {
		vnd.Assert(err != nil, "string: longer than 65535 bytes is refused")
		vnd.Cover("too long")
		return
	}
	vnd.Assert(err == nil, "string: value is written")
	vnd.Assert(t.n == len(s)+2+prop, "string: all bytes are written")
	vnd.Assert(int(n) == t.n, "string: reported count equals bytes written")
	vnd.Assert(int(p.Length(prop == 1)) == t.n, "string: Length agrees with the encoding")
	if len(t.head) >= 2+prop {
		vnd.Assert(int(t.head[prop])<<8|int(t.head[prop+1]) == len(s), "string: announced length")
	}
	vnd.Cover("written")
}

// HPrimStringLong: long strings survive the round trip byte for byte.
func HPrimStringLong() {
	ns := []int{127, 128, 255, 256, 257, 511, 512, 4096, 32767, 32768, 65534, 65535}
	n := ns[vnd.Choice("len", len(ns))]
	b := []byte(filler(n))
	b[0], b[n-1] = vnd.Byte("first")&0x7f|1, vnd.Byte("last")&0x7f|1
	p := primitives.PrimitiveString(b)
	var buf bytes.Buffer
	_, err := p.WriteTo(&buf)
	vnd.Assert(err == nil, "string: value is written")
	s := &stream{b: buf.Bytes(), end: io.EOF, mode: 2, cut: 2 + n/2}
	var q primitives.PrimitiveString
	_, err = q.ReadFrom(s)
	vnd.Assert(err == nil, "string: own encoding is accepted")
	vnd.Assert(vnd.EqStr(string(q), string(b)), "string: round trip")
}

// HVarintDecode: arbitrary bytes: a value is accepted only when it is one, with
// nothing read beyond its last byte and never more than four bytes read.
func HVarintDecode() {
	n := vnd.Choice("n", 7)
	b := vnd.Bytes("b", n)
	s := &stream{b: b, end: io.EOF}
	var v primitives.VariableByteInt
	cnt, err := v.ReadFrom(s)
	vnd.Assert(s.pos <= 4, "varint: at most four bytes are read")
	k := -1
	for i := n - 1; i >= 0; i-- {
		if i < 4 {
			k = vnd.IteInt(b[i]&0x80 == 0, i, k)
		}
	}
	if k < 0 {
		vnd.Assert(err != nil, "varint: unterminated value is refused")
		vnd.Cover("refused")
		return
	}
	if err != nil {
		// only a value not in its shortest form may be refused
		vnd.Assert(k > 0, "varint: valid value is accepted")
		if k > 0 {
			vnd.Assert(b[k] == 0, "varint: valid value is accepted")
		}
		return
	}
	vnd.Assert(s.pos == k+1, "varint: exactly the encoding is consumed")
	vnd.Assert(int(cnt) == k+1, "varint: reported count is the bytes consumed")
	var want uint32
	for i := 0; i <= k; i++ {
		want |= uint32(b[i]&0x7f) << uint(7*i)
	}
	vnd.Assert(uint32(v) == want, "varint: decoded value")
	vnd.Cover("accepted")
}

// HVarintProperty: as a property, one identifier byte more.
func HVarintProperty() {
	x := vnd.U32("x")
	id := vnd.Byte("id")
	v := primitives.VariableByteInt(x)
	var plain, prop bytes.Buffer
	_, err1 := v.WriteTo(&plain)
	n, err2 := v.WriteToAsProperty(id, &prop)
	vnd.Assert((err1 == nil) == (err2 == nil), "varint: property refused as the value is")
	if err1 != nil {
		vnd.Cover("refused")
		return
	}
	vnd.Assert(vnd.EqBytes(prop.Bytes(), append([]byte{id}, plain.Bytes()...)), "varint: property wire form")
	vnd.Assert(int(n) == prop.Len(), "varint: reported property count equals bytes written")
	vnd.Assert(int(v.Length(true)) == prop.Len(), "varint: property Length agrees with the encoding")
	k := vnd.Choice("failing byte", 5)
	vnd.Assume(k < prop.Len())
	_, err := v.WriteToAsProperty(id, &sink{limit: k, fail: errIO})
	vnd.Assert(err != nil, "varint: a failed write is reported")
	vnd.Cover("written")
}

// endless is a peer that never stops sending the same byte.
type endless struct {
	b byte
	n int
}

func (e *endless) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = e.b
	}
	e.n += len(p)
	return len(p), nil
}

// HVarintEndless: an endless run of continuation bytes is given up.
func HVarintEndless() {
	e := &endless{b: vnd.Byte("b") | 0x80}
	var v primitives.VariableByteInt
	_, err := v.ReadFrom(e)
	vnd.Assert(err != nil, "varint: endless value is refused")
	vnd.Assert(e.n <= 4, "varint: at most four bytes are read")
}

// HTopicOptions: the options byte of a subscription after any sequence of setters.
func HTopicOptions() {
	var t packets.Topic
	filters := []string{"", "a", "abc/+", "$share/g/a", "$SYS/x", "sport/#"}
	filter := ""
	var qos, handling byte
	var noLocal, rap, shared bool
	if vnd.Choice("start", 2) == 1 {
		filter = filters[vnd.Choice("filter", len(filters))]
		t.SetFilter(filter)
	}
	shared = filter == "$share/g/a"
	n := vnd.Param("setters", 3)
	for i := 0; i < n; i++ {
		var r *packets.Topic
		switch vnd.Choice("setter", 5) {
		case 0:
			qos = vnd.Byte("qos")
			vnd.Assume(qos <= 2)
			r = t.SetQoS(packets.QoS(qos))
		case 1:
			handling = vnd.Byte("handling")
			vnd.Assume(handling <= 2)
			r = t.SetRetainHandling(packets.RetainHandlingOption(handling))
		case 2:
			noLocal = vnd.Bool("nolocal")
			r = t.SetNoLocal(noLocal)
		case 3:
			rap = vnd.Bool("rap")
			r = t.SetRetainAsPublished(rap)
		case 4:
			filter = filters[vnd.Choice("filter", len(filters))]
			r = t.SetFilter(filter)
			if filter == "$share/g/a" {
				shared = true
			} else if shared {
				// whether no-local comes back is left open: set it again
				shared, noLocal = false, false
				t.SetNoLocal(false)
			}
		}
		vnd.Assert(r == &t, "topic: setters return the topic itself")
	}
	vnd.Assert(t.Filter() == filter, "topic: filter")
	p := &packets.Subscribe{PacketIdentifier: 1, Topics: []packets.Topic{t}}
	_, c := encoded("SUBSCRIBE", p, 8)
	if c == nil {
		return
	}
	c.U16()
	c.Props()
	c.Str()
	o := c.Byte()
	vnd.Assert(!c.Bad, "topic: options byte is sent")
	vnd.Assert(o&3 == qos, "topic: QoS bits")
	vnd.Assert(o>>4&3 == handling, "topic: retain handling bits")
	vnd.Assert(o>>3&1 == 1 == rap, "topic: retain as published bit")
	vnd.Assert(o>>6 == 0, "topic: reserved bits are zero")
	if filter == "$share/g/a" {
		vnd.Assert(o>>2&1 == 0, "topic: no-local is never set on a shared subscription")
		vnd.Cover("shared")
	} else {
		vnd.Assert(o>>2&1 == 1 == noLocal, "topic: no-local bit")
		vnd.Cover("plain")
	}
}

// HHeaderBits: type and flags share the first byte without disturbing each other.
func HHeaderBits() {
	var fh packets.FixedHeader
	fh.Header = primitives.PrimitiveByte(vnd.Byte("initial"))
	typ := byte(fh.Header) >> 4
	flags := byte(fh.Header) & 15
	for i := 0; i < 3; i++ {
		if vnd.Choice("set", 2) == 0 {
			typ = vnd.Byte("type")
			vnd.Assume(typ <= 15)
			fh.SetType(packets.PacketType(typ))
		} else {
			flags = vnd.Byte("flags")
			vnd.Assume(flags <= 15)
			fh.SetFlags(primitives.PrimitiveByte(flags))
		}
		vnd.Assert(byte(fh.GetType()) == typ, "header: packet type")
		vnd.Assert(byte(fh.GetFlags()) == flags, "header: flags")
		vnd.Assert(byte(fh.Header) == typ<<4|flags, "header: first byte")
	}
	x := vnd.U32("remaining")
	vnd.Assume(x <= 268435455)
	fh.Remaining = primitives.VariableByteInt(x)
	var buf bytes.Buffer
	n, err := fh.WriteTo(&buf)
	vnd.Assert(err == nil, "header: valid header is written")
	vnd.Assert(int(n) == buf.Len(), "header: reported count equals bytes written")
	var g packets.FixedHeader
	s := &stream{b: buf.Bytes(), end: io.EOF}
	_, err = g.ReadFrom(s)
	vnd.Assert(err == nil, "header: own encoding is accepted")
	vnd.Assert(g.Header == fh.Header, "header: round trip")
	vnd.Assert(g.Remaining == fh.Remaining, "header: round trip")
}

// HPublishReader: reading a message yields its payload, in order, then the end.
func HPublishReader() {
	n := vnd.Choice("len", vnd.Param("maxpayload", 4)+1)
	b := vnd.Bytes("payload", n)
	p := &packets.Publish{Topic: "t", Payload: append([]byte{}, b...)}
	for round := 0; round < 2; round++ {
		var got []byte
		ended := false
		for i := 0; i < n+1; i++ {
			k := 1 + vnd.Choice("buffer", 3)
			buf := make([]byte, k)
			m, err := p.Read(buf)
			vnd.Assert(m >= 0 && m <= k, "reader: count within the buffer")
			got = append(got, buf[:m]...)
			if err != nil {
				vnd.Assert(err == io.EOF, "reader: only the end is reported")
				ended = true
				break
			}
			vnd.Assert(m > 0, "reader: progress is made")
			if round == 1 && i == 0 && vnd.Choice("stop", 2) == 1 {
				break
			}
		}
		if round == 0 || ended {
			vnd.Assert(ended, "reader: the end is reported")
			vnd.Assert(vnd.EqBytes(got, b), "reader: payload bytes in order")
		}
		p.Reset()
	}
	all, err := io.ReadAll(p)
	vnd.Assert(err == nil, "reader: no error")
	vnd.Assert(vnd.EqBytes(all, b), "reader: after a reset the payload is read again")
	vnd.Assert(vnd.EqBytes(p.Payload, b), "reader: reading leaves the payload alone")
	vnd.Cover("read")
}

// HPublishWriter: bytes written to a message land in its payload, in order.
func HPublishWriter() {
	n := vnd.Choice("len", vnd.Param("maxpayload", 4)+1)
	p := &packets.Publish{Topic: "t", Payload: make([]byte, n)}
	var want []byte
	for i := 0; i < 3; i++ {
		k := 1 + vnd.Choice("write", 2)
		b := vnd.Bytes("b", k)
		m, err := p.Write(b)
		vnd.Assert(m >= 0 && m <= k, "writer: count within the data")
		room := n - len(want)
		fit := k
		if fit > room {
			fit = room
		}
		vnd.Assert(m == fit, "writer: what fits is written")
		vnd.Assert(fit < k == (err != nil) || fit > 0, "writer: a full message reports it")
		vnd.Assert(err == nil || fit < k, "writer: no error while there is room")
		want = append(want, b[:m]...)
	}
	vnd.Assert(len(p.Payload) == n, "writer: payload size is kept")
	vnd.Assert(vnd.EqBytes(p.Payload[:len(want)], want), "writer: bytes land in order")
	p.Reset()
	all, _ := io.ReadAll(p)
	vnd.Assert(len(all) == n, "writer: the payload is read back")
	vnd.Assert(vnd.EqBytes(all[:len(want)], want), "writer: the payload is read back")
	vnd.Cover("written")
}
