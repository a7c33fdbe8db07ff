package codec

import (
	"bytes"

	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// HVarintRoundTrip: every encodable value is written in its shortest form and read back.
func HVarintRoundTrip() {
	x := vnd.U32("x")
	v := primitives.VariableByteInt(x)
	var buf bytes.Buffer
	n, err := v.WriteTo(&buf)
	if x > 268435455 {
		vnd.Cover("unencodable")
		vnd.Assert(err != nil, "varint: value above 268435455 is refused")
		return
	}
	vnd.Assert(err == nil, "varint: encodable value is written")
	if err != nil {
		return
	}
	b := buf.Bytes()
	vnd.Assert(int(n) == len(b), "varint: reported count equals bytes written")
	want := 1
	want = vnd.IteInt(x >= 128, 2, want)
	want = vnd.IteInt(x >= 16384, 3, want)
	want = vnd.IteInt(x >= 2097152, 4, want)
	vnd.Assert(len(b) == want, "varint: shortest encoding is used")
	vnd.Assert(int(v.Length(false)) == len(b), "varint: Length agrees with the encoding")
	var y uint32
	for i := 0; i < len(b); i++ {
		y |= uint32(b[i]&0x7f) << uint(7*i)
		vnd.Assert((b[i]&0x80 != 0) == (i+1 < len(b)), "varint: continuation bits")
	}
	vnd.Assert(y == x, "varint: encoded value")
	switch len(b) {
	case 1:
		vnd.Cover("1 byte")
	case 2:
		vnd.Cover("2 bytes")
	case 3:
		vnd.Cover("3 bytes")
	case 4:
		vnd.Cover("4 bytes")
	}
	vnd.ObserveBytes("enc", b)
	var z primitives.VariableByteInt
	n, err = z.ReadFrom(bytes.NewReader(b))
	vnd.Assert(err == nil, "varint: own encoding is accepted")
	vnd.Assert(int(n) == len(b), "varint: decoder consumes the encoding")
	vnd.Assert(uint32(z) == x, "varint: round trip")
}
