package vmodel

import (
	"encoding/binary"
	"io"
)

// plain gives a value of a defined number type, or a pointer to one, the
// predeclared type under it.
func plain(x any) any { return x }

func unmodelled(what string) {}

// BinaryWrite is binary.Write for numbers and bytes.
func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	var b []byte
	switch v := plain(data).(type) {
	case bool:
		b = []byte{0}
		if v {
			b[0] = 1
		}
	case *bool:
		return BinaryWrite(w, order, *v)
	case uint8:
		b = []byte{v}
	case *uint8:
		b = []byte{*v}
	case int8:
		b = []byte{byte(v)}
	case uint16:
		b = make([]byte, 2)
		order.PutUint16(b, v)
	case *uint16:
		return BinaryWrite(w, order, *v)
	case int16:
		return BinaryWrite(w, order, uint16(v))
	case uint32:
		b = make([]byte, 4)
		order.PutUint32(b, v)
	case *uint32:
		return BinaryWrite(w, order, *v)
	case int32:
		return BinaryWrite(w, order, uint32(v))
	case uint64:
		b = make([]byte, 8)
		order.PutUint64(b, v)
	case *uint64:
		return BinaryWrite(w, order, *v)
	case int64:
		return BinaryWrite(w, order, uint64(v))
	case []byte:
		b = append(make([]byte, 0, len(v)), v...)
	default:
		unmodelled("binary.Write")
	}
	_, err := w.Write(b)
	return err
}

// BinaryRead is binary.Read for numbers and bytes.
func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	var b [8]byte
	read := func(n int) error {
		_, err := io.ReadFull(r, b[:n])
		return err
	}
	switch v := plain(data).(type) {
	case *bool:
		if err := read(1); err != nil {
			return err
		}
		*v = b[0] != 0
	case *uint8:
		if err := read(1); err != nil {
			return err
		}
		*v = b[0]
	case *int8:
		if err := read(1); err != nil {
			return err
		}
		*v = int8(b[0])
	case *uint16:
		if err := read(2); err != nil {
			return err
		}
		*v = order.Uint16(b[:])
	case *int16:
		if err := read(2); err != nil {
			return err
		}
		*v = int16(order.Uint16(b[:]))
	case *uint32:
		if err := read(4); err != nil {
			return err
		}
		*v = order.Uint32(b[:])
	case *int32:
		if err := read(4); err != nil {
			return err
		}
		*v = int32(order.Uint32(b[:]))
	case *uint64:
		if err := read(8); err != nil {
			return err
		}
		*v = order.Uint64(b[:])
	case []byte:
		c := make([]byte, len(v))
		if _, err := io.ReadFull(r, c); err != nil {
			return err
		}
		copy(v, c)
	default:
		unmodelled("binary.Read")
	}
	return nil
}
