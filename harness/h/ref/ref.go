// Package ref is an independent reading of the MQTT 5.0 wire format, used as
// the oracle: it shares no code with the implementation.
package ref

// Property value kinds.
const (
	KByte = iota + 1
	KU16
	KU32
	KVar
	KStr
	KPair
)

// Kind gives the data type of a property (MQTT 5.0 table 2-4), 0 if undefined.
func Kind(id byte) int {
	switch id {
	case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
		return KByte
	case 0x13, 0x21, 0x22, 0x23:
		return KU16
	case 0x02, 0x11, 0x18, 0x27:
		return KU32
	case 0x0B:
		return KVar
	case 0x03, 0x08, 0x09, 0x12, 0x15, 0x16, 0x1A, 0x1C, 0x1F:
		return KStr
	case 0x26:
		return KPair
	}
	return 0
}

// Prop is one property.
type Prop struct {
	ID  byte
	Num uint32
	S   []byte
	V   []byte
}

// Cur reads a byte string.
type Cur struct {
	B   []byte
	Pos int
	Bad bool
	Lax bool // accept variable byte integers that are longer than necessary
}

func (c *Cur) Left() int { return len(c.B) - c.Pos }

func (c *Cur) Byte() byte {
	if c.Bad || c.Pos >= len(c.B) {
		c.Bad = true
		return 0
	}
	b := c.B[c.Pos]
	c.Pos++
	return b
}

func (c *Cur) U16() uint16 {
	h := c.Byte()
	l := c.Byte()
	return uint16(h)<<8 | uint16(l)
}

func (c *Cur) U32() uint32 {
	h := c.U16()
	l := c.U16()
	return uint32(h)<<16 | uint32(l)
}

// Var reads a variable byte integer, in its shortest form unless Lax is set.
func (c *Cur) Var() uint32 {
	var v uint32
	for i := 0; i < 4; i++ {
		b := c.Byte()
		if c.Bad {
			return 0
		}
		v |= uint32(b&0x7f) << uint(7*i)
		if b&0x80 == 0 {
			if !c.Lax && i > 0 && b == 0 {
				c.Bad = true
			}
			return v
		}
	}
	c.Bad = true
	return 0
}

func (c *Cur) Take(n int) []byte {
	if c.Bad || n < 0 || n > c.Left() {
		c.Bad = true
		return nil
	}
	b := c.B[c.Pos : c.Pos+n]
	c.Pos += n
	return b
}

func (c *Cur) Str() []byte { return c.Take(int(c.U16())) }

// Props reads a property length and that many bytes of properties.
func (c *Cur) Props() []Prop {
	n := int(c.Var())
	in := Cur{B: c.Take(n), Lax: c.Lax}
	if c.Bad {
		return nil
	}
	var out []Prop
	for in.Pos < len(in.B) {
		p := Prop{ID: in.Byte()}
		switch Kind(p.ID) {
		case KByte:
			p.Num = uint32(in.Byte())
		case KU16:
			p.Num = uint32(in.U16())
		case KU32:
			p.Num = in.U32()
		case KVar:
			p.Num = in.Var()
		case KStr:
			p.S = in.Str()
		case KPair:
			p.S = in.Str()
			p.V = in.Str()
		default:
			in.Bad = true
		}
		if in.Bad {
			c.Bad = true
			return nil
		}
		out = append(out, p)
	}
	return out
}

// Head reads a fixed header and checks that exactly the stated bytes follow.
func Head(b []byte) (typ, flags byte, c *Cur) {
	c = &Cur{B: b}
	h := c.Byte()
	n := int(c.Var())
	if n != c.Left() {
		c.Bad = true
	}
	return h >> 4, h & 15, c
}

// Count returns how many properties have the identifier, and the first of them.
func Count(ps []Prop, id byte) (n int, p Prop) {
	for _, q := range ps {
		if q.ID == id {
			if n == 0 {
				p = q
			}
			n++
		}
	}
	return
}

// Allowed reports whether all identifiers belong to the set and none but the
// user property repeats.
func Allowed(ps []Prop, ids ...byte) bool {
	for i, p := range ps {
		ok := false
		for _, id := range ids {
			if p.ID == id {
				ok = true
			}
		}
		if !ok {
			return false
		}
		for _, q := range ps[:i] {
			if q.ID == p.ID && p.ID != 0x26 {
				return false
			}
		}
	}
	return true
}

// ---- building ----

func AppU16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func AppU32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func AppVar(b []byte, v uint32) []byte {
	for {
		x := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			b = append(b, x|0x80)
			continue
		}
		return append(b, x)
	}
}

func AppStr(b, s []byte) []byte {
	b = AppU16(b, uint16(len(s)))
	return append(b, s...)
}

func AppProp(b []byte, p Prop) []byte {
	b = append(b, p.ID)
	switch Kind(p.ID) {
	case KByte:
		b = append(b, byte(p.Num))
	case KU16:
		b = AppU16(b, uint16(p.Num))
	case KU32:
		b = AppU32(b, p.Num)
	case KVar:
		b = AppVar(b, p.Num)
	case KStr:
		b = AppStr(b, p.S)
	case KPair:
		b = AppStr(b, p.S)
		b = AppStr(b, p.V)
	}
	return b
}

func AppProps(b []byte, ps []Prop) []byte {
	var in []byte
	for _, p := range ps {
		in = AppProp(in, p)
	}
	b = AppVar(b, uint32(len(in)))
	return append(b, in...)
}

// Packet puts a fixed header in front of a body.
func Packet(typ, flags byte, body []byte) []byte {
	b := []byte{typ<<4 | flags}
	b = AppVar(b, uint32(len(body)))
	return append(b, body...)
}
