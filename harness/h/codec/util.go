package codec

import (
	"bytes"
	"io"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// chooser makes some optional fields arbitrary and the rest all absent or all
// present: any pair of fields (one or three of them, as width says) is
// arbitrary on some path.
type chooser struct {
	a, b, c, bg int
	all         bool
	maxStr      int
}

func choose(n int) *chooser {
	c := &chooser{maxStr: vnd.Param("maxstr", 1)}
	if vnd.Param("all", 0) == 1 {
		c.all = true
		return c
	}
	c.a = vnd.Choice("field", n)
	c.b, c.c = c.a, c.a
	width := vnd.Param("width", 2)
	if width > 1 {
		c.b = vnd.Choice("field", n)
		vnd.Assume(c.a <= c.b)
	}
	if width > 2 {
		c.c = vnd.Choice("field", n)
		vnd.Assume(c.b <= c.c)
	}
	c.bg = vnd.Choice("others", 2)
	return c
}

func (c *chooser) arbitrary(i int) bool { return c.all || i == c.a || i == c.b || i == c.c }

func (c *chooser) str(i int, label string) primitives.PrimitiveString {
	if c.arbitrary(i) {
		n := vnd.Choice("len."+label, c.maxStr+1)
		return primitives.PrimitiveString(vnd.String(label, n))
	}
	if c.bg == 1 {
		return "x"
	}
	return ""
}

func (c *chooser) u8(i int, label string) primitives.PrimitiveByte {
	if c.arbitrary(i) {
		return primitives.PrimitiveByte(vnd.Byte(label))
	}
	return primitives.PrimitiveByte(c.bg)
}

// bit is a byte that is 0 or 1.
func (c *chooser) bit(i int, label string) primitives.PrimitiveByte {
	v := c.u8(i, label)
	vnd.Assume(v <= 1)
	return v
}

func (c *chooser) u16(i int, label string) primitives.PrimitiveUint16 {
	if c.arbitrary(i) {
		return primitives.PrimitiveUint16(vnd.U16(label))
	}
	return primitives.PrimitiveUint16(c.bg * 0x1234)
}

func (c *chooser) u32(i int, label string) primitives.PrimitiveUint32 {
	if c.arbitrary(i) {
		return primitives.PrimitiveUint32(vnd.U32(label))
	}
	return primitives.PrimitiveUint32(c.bg * 0x12345678)
}

func (c *chooser) flag(i int, label string) bool {
	if c.arbitrary(i) {
		return vnd.Bool(label)
	}
	return c.bg == 1
}

func (c *chooser) users(i int, label string) primitives.PrimitiveStringMap {
	if c.arbitrary(i) {
		switch vnd.Choice("n."+label, 3) {
		case 1:
			return primitives.PrimitiveStringMap{
				ps(utf8(label+".k", vnd.Choice("len."+label, c.maxStr+1))): ps(utf8(label+".v", vnd.Choice("len."+label, c.maxStr+1))),
			}
		case 2:
			k1, k2 := utf8(label+".k", 1), utf8(label+".k", 1)
			vnd.Assume(k1[0] != k2[0])
			return primitives.PrimitiveStringMap{
				ps(k1): ps(utf8(label+".v", 1)),
				ps(k2): ps(utf8(label+".v", 1)),
			}
		}
		return nil
	}
	if c.bg == 1 {
		return primitives.PrimitiveStringMap{"k": "v"}
	}
	return nil
}

// long gives a string around an encoding boundary: a constant filler.
func filler(n int) primitives.PrimitiveString {
	return primitives.PrimitiveString(bytes.Repeat([]byte{'z'}, n))
}

// encoded runs an encoder and checks what holds for every packet: the reported
// count is the number of bytes written and exactly one framed packet results.
func encoded(name string, w io.WriterTo, typ byte) (flags byte, c *ref.Cur) {
	if vnd.Param("again", 0) == 1 {
		before(name, w)
	}
	var buf bytes.Buffer
	n, err := w.WriteTo(&buf)
	vnd.Assert(err == nil, name+": valid packet is encoded")
	if err != nil {
		return 0, nil
	}
	b := buf.Bytes()
	vnd.Assert(int(n) == len(b), name+": reported count equals bytes written")
	t, flags, c := ref.Head(b)
	vnd.Assert(!c.Bad, name+": remaining length equals the bytes that follow")
	vnd.Assert(t == typ, name+": packet type")
	if c.Bad {
		return 0, nil
	}
	return flags, c
}

// num checks a numeric property against the field it comes from: 0 means unset.
func num(name string, ps []ref.Prop, id byte, want uint32) {
	n, p := ref.Count(ps, id)
	if n == 0 {
		vnd.Assert(want == 0, name+" is sent when set")
		return
	}
	vnd.Assert(p.Num == want, name+" value")
}

func str(name string, ps []ref.Prop, id byte, want primitives.PrimitiveString) {
	n, p := ref.Count(ps, id)
	if n == 0 {
		vnd.Assert(len(want) == 0, name+" is sent when set")
		return
	}
	vnd.Assert(vnd.EqBytes(p.S, []byte(want)), name+" value")
}

// users checks user properties as a set of pairs.
func users(name string, ps []ref.Prop, want primitives.PrimitiveStringMap) {
	n := 0
	for _, p := range ps {
		if p.ID != 0x26 {
			continue
		}
		n++
		found := false
		for k, v := range want {
			found = vnd.Or(found, vnd.And(vnd.EqBytes(p.S, []byte(k)), vnd.EqBytes(p.V, []byte(v))))
		}
		vnd.Assert(found, name+": user property sent was set")
	}
	vnd.Assert(n == len(want), name+": every user property is sent once")
	for k, v := range want {
		found := false
		for _, p := range ps {
			if p.ID == 0x26 {
				found = vnd.Or(found, vnd.And(vnd.EqBytes(p.S, []byte(k)), vnd.EqBytes(p.V, []byte(v))))
			}
		}
		vnd.Assert(found, name+": user property set is sent")
	}
}

// text is a well-formed UTF-8 field.
func (c *chooser) text(i int, label string) primitives.PrimitiveString {
	if c.arbitrary(i) {
		return ps(utf8(label, vnd.Choice("len."+label, c.maxStr+1)))
	}
	return ps(bytes.Repeat([]byte{'x'}, c.bg))
}

// topic is a topic name field.
func (c *chooser) topic(i int, label string) primitives.PrimitiveString {
	if c.arbitrary(i) {
		return ps(topic(label, vnd.Choice("len."+label, c.maxStr+1)))
	}
	return ps(bytes.Repeat([]byte{'x'}, c.bg))
}

// before encodes the packet once already: to the end, or until the connection
// fails somewhere.
func before(name string, w io.WriterTo) {
	k := vnd.Choice("fails at", 9) * 3
	if k == 0 {
		var buf bytes.Buffer
		_, err := w.WriteTo(&buf)
		vnd.Assert(err == nil, name+": valid packet is encoded")
		vnd.Cover("again")
		return
	}
	s := &sink{limit: k - 3, fail: errIO}
	_, err := w.WriteTo(s)
	vnd.Assert(s.err == (err != nil), name+": a failed write is reported")
	vnd.Cover("again after a failure")
}

// mine is a copy of the map that shares nothing with it.
func mine(m primitives.PrimitiveStringMap) primitives.PrimitiveStringMap {
	if m == nil {
		return nil
	}
	c := primitives.PrimitiveStringMap{}
	for k, v := range m {
		c[k] = v
	}
	return c
}
