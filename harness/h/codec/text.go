package codec

import (
	"errors"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

var errIO = errors.New("i/o failure")

// utf8 is an arbitrary well-formed text of n bytes: printable ASCII, or a
// two-byte sequence when n is 2.
func utf8(label string, n int) []byte {
	b := vnd.Bytes(label, n)
	if n == 2 {
		vnd.Assume(vnd.Or(vnd.And(ascii(b[0]), ascii(b[1])),
			vnd.And(vnd.And(b[0] >= 0xC3, b[0] <= 0xDF), vnd.And(b[1] >= 0x80, b[1] <= 0xBF))))
		return b
	}
	for i := range b {
		vnd.Assume(ascii(b[i]))
	}
	return b
}

func ascii(x byte) bool { return vnd.And(x >= 0x20, x <= 0x7E) }

// topic is an arbitrary topic name of n bytes: no wildcards, no leading $.
func topic(label string, n int) []byte {
	b := utf8(label, n)
	for i := range b {
		vnd.Assume(vnd.And(b[i] != '+', b[i] != '#'))
		vnd.Assume(b[i] != '$')
	}
	return b
}

func ps(b []byte) primitives.PrimitiveString { return primitives.PrimitiveString(b) }

// isText tells whether a property is a UTF-8 string rather than binary data.
func isText(id byte) bool { return id != 0x09 && id != 0x16 }

// oneOf assumes that b is one of the listed values.
func oneOf(b byte, vs ...byte) byte {
	ok := false
	for _, v := range vs {
		ok = vnd.Or(ok, b == v)
	}
	vnd.Assume(ok)
	return b
}

// pick gives up to max arbitrary properties from the identifiers, in any
// order, with arbitrary admissible values. Only the user property (0x26) may
// appear twice, with different names.
func pick(label string, ids []byte, max int) []ref.Prop {
	if vnd.Param("large", 0) == 1 {
		return large(label, ids)
	}
	n := vnd.Choice(label+".n", max+1)
	var out []ref.Prop
	for i := 0; i < n; i++ {
		id := ids[vnd.Choice(label+".id", len(ids))]
		if id != 0x26 {
			for _, q := range out {
				vnd.Assume(q.ID != id)
			}
		}
		out = append(out, value(label, id, out))
	}
	return out
}

// large gives one text or binary property around the points where a length
// field grows, and one other property before or behind it.
func large(label string, ids []byte) []ref.Prop {
	var texts []byte
	for _, id := range ids {
		if k := ref.Kind(id); k == ref.KStr || k == ref.KPair {
			texts = append(texts, id)
		}
	}
	p := ref.Prop{ID: texts[vnd.Choice(label+".id", len(texts))]}
	p.S = []byte(filler(edges[vnd.Choice("len", len(edges))]))
	vnd.Assume(p.ID != 0x08 || len(p.S) > 0)
	if p.ID == 0x26 && vnd.Choice(label+".which", 2) == 1 {
		p.S, p.V = []byte("k"), p.S
	}
	out := []ref.Prop{p}
	for _, id := range ids {
		if id != p.ID {
			q := value(label, id, nil)
			if vnd.Choice(label+".order", 2) == 1 {
				return []ref.Prop{q, p}
			}
			return append(out, q)
		}
	}
	return out
}

func value(label string, id byte, before []ref.Prop) ref.Prop {
	p := ref.Prop{ID: id}
	maxStr := vnd.Param("maxstr", 1)
	switch ref.Kind(id) {
	case ref.KByte:
		b := vnd.Byte(label + ".byte")
		vnd.Assume(b <= 1)
		p.Num = uint32(b)
	case ref.KU16:
		v := vnd.U16(label + ".u16")
		vnd.Assume(vnd.Or(v != 0, id == 0x13 || id == 0x22))
		p.Num = uint32(v)
	case ref.KU32:
		p.Num = vnd.U32(label + ".u32")
		vnd.Assume(vnd.Or(p.Num != 0, id != 0x27))
	case ref.KVar:
		p.Num = vnd.U32(label + ".var")
		vnd.Assume(vnd.And(p.Num >= 1, p.Num <= 268435455))
	case ref.KStr:
		k := vnd.Choice(label+".len", maxStr+1)
		switch {
		case !isText(id):
			p.S = vnd.Bytes(label+".bin", k)
		case id == 0x08:
			vnd.Assume(k > 0)
			p.S = topic(label+".topic", k)
		default:
			p.S = utf8(label+".str", k)
		}
	case ref.KPair:
		p.S = utf8(label+".name", vnd.Choice(label+".len", maxStr+1))
		p.V = utf8(label+".value", vnd.Choice(label+".len", maxStr+1))
		for _, q := range before {
			if q.ID == 0x26 {
				vnd.Assume(!vnd.EqBytes(q.S, p.S))
			}
		}
	}
	return p
}

// gotNum checks a decoded numeric field against the properties sent.
func gotNum(name string, ps []ref.Prop, id byte, got uint32) {
	_, p := ref.Count(ps, id)
	vnd.Assert(got == p.Num, name)
}

func gotStr(name string, ps []ref.Prop, id byte, got primitives.PrimitiveString) {
	_, p := ref.Count(ps, id)
	vnd.Assert(vnd.EqBytes([]byte(got), p.S), name)
}

// gotUsers checks decoded user properties against those sent.
func gotUsers(name string, ps []ref.Prop, got primitives.PrimitiveStringMap) {
	n := 0
	for _, p := range ps {
		if p.ID != 0x26 {
			continue
		}
		n++
		found := false
		for k, v := range got {
			found = vnd.Or(found, vnd.And(vnd.EqBytes(p.S, []byte(k)), vnd.EqBytes(p.V, []byte(v))))
		}
		vnd.Assert(found, name+": user property is decoded")
	}
	vnd.Assert(n == len(got), name+": no other user property appears")
}
