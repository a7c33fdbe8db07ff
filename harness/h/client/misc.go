package client

import (
	"errors"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// shelf is a storage and what ought to be in it.
type shelf struct {
	s    storage.Storage
	ids  []uint16
	vals []any
}

func (m *shelf) find(id uint16) int {
	for i, x := range m.ids {
		if x == id {
			return i
		}
	}
	return -1
}

// step is one operation.
func (m *shelf) step() {
	id := vnd.U16("id")
	switch vnd.Choice("op", 3) {
	case 0:
		p := &packets.Publish{}
		err := m.s.Store(id, p)
		if m.find(id) >= 0 {
			vnd.Assert(errors.Is(err, storage.ErrDuplicateEntry), "storage: a second packet under an identifier is refused")
			vnd.Cover("duplicate")
		} else {
			vnd.Assert(err == nil, "storage: a packet is stored")
			m.ids, m.vals = append(m.ids, id), append(m.vals, p)
		}
	case 1:
		p, err := m.s.Get(id)
		if i := m.find(id); i >= 0 {
			vnd.Assert(err == nil && p == m.vals[i], "storage: the stored packet is returned")
			vnd.Cover("found")
		} else {
			vnd.Assert(errors.Is(err, storage.ErrNoEntry), "storage: a missing packet is reported")
		}
	case 2:
		err := m.s.Drop(id)
		if i := m.find(id); i >= 0 {
			vnd.Assert(err == nil, "storage: a stored packet is dropped")
			var a []uint16
			var b []any
			for k := range m.ids {
				if k != i {
					a, b = append(a, m.ids[k]), append(b, m.vals[k])
				}
			}
			m.ids, m.vals = a, b
			vnd.Cover("dropped")
		} else {
			vnd.Assert(errors.Is(err, storage.ErrNoEntry), "storage: dropping a missing packet is reported")
		}
	}
}

func (m *shelf) check() {
	for i, id := range m.ids {
		p, err := m.s.Get(id)
		vnd.Assert(err == nil && p == m.vals[i], "storage: all stored packets are kept")
	}
}

// HStorage: a history of operations on the in-memory storage against an
// ordered map.
func HStorage() {
	m := &shelf{s: memory.NewStorage()}
	for n := 0; n < vnd.Param("steps", 4); n++ {
		m.step()
	}
	m.check()
}

// HStorageFilled: the same with more entries.
func HStorageFilled() {
	m := &shelf{s: memory.NewStorage()}
	for i, n := 0, []int{2, 3, 4, 5, 8, 9, 17}[vnd.Choice("entries", 7)]; i < n; i++ {
		p := &packets.Publish{}
		id := uint16(40000 - 257*i)
		vnd.Assert(m.s.Store(id, p) == nil, "storage: a packet is stored")
		m.ids, m.vals = append(m.ids, id), append(m.vals, p)
	}
	for i := 0; i < vnd.Param("steps", 2); i++ {
		m.step()
	}
	p := &packets.Publish{}
	vnd.Assert((m.s.Store(7, p) == nil) == (m.find(7) < 0), "storage: a packet is stored")
	if m.find(7) < 0 {
		m.ids, m.vals = append(m.ids, 7), append(m.vals, p)
	}
	m.check()
}

// HStorages: the same with two storages.
func HStorages() {
	a, b := &shelf{s: memory.NewStorage()}, &shelf{s: memory.NewStorage()}
	for n := 0; n < vnd.Param("steps", 3); n++ {
		if vnd.Choice("which", 2) == 0 {
			a.step()
		} else {
			b.step()
		}
	}
	a.check()
	b.check()
}

// HStorageThreads: two goroutines use the storage at once.
func HStorageThreads() {
	vnd.Races()
	s := memory.NewStorage()
	a, b := vnd.U16("a"), vnd.U16("b")
	pa, pb := &packets.Publish{}, &packets.Publish{}
	var ea, eb error
	done := make(chan bool, 2)
	drop := vnd.Choice("drop", 2) == 1
	vnd.Explore(vnd.Param("preempt", 3))
	go func() { ea = s.Store(a, pa); done <- true }()
	go func() {
		eb = s.Store(b, pb)
		if drop && eb == nil {
			eb = s.Drop(b)
			vnd.Assert(eb == nil, "storage: a stored packet is dropped")
		}
		done <- true
	}()
	<-done
	<-done
	if a != b {
		vnd.Assert(ea == nil && eb == nil, "storage: packets of different goroutines are stored")
		p, err := s.Get(a)
		vnd.Assert(err == nil && p == any(pa), "storage: no packet is lost")
		_, err = s.Get(b)
		vnd.Assert((err == nil) == !drop, "storage: no packet is lost")
		vnd.Cover("different")
	} else {
		if drop {
			vnd.Assert(ea == nil || eb == nil, "storage: one of two packets under an identifier is stored")
		} else {
			vnd.Assert((ea == nil) != (eb == nil), "storage: one of two packets under an identifier is stored")
		}
		vnd.Cover("same")
	}
}

// names of the reason codes that report errors, in the standard's table 2-6
var reasons = []struct {
	code byte
	text string
}{
	{0x80, "unspecified error"}, {0x81, "malformed packet"}, {0x82, "protocol error"}, {0x83, "implementation specific error"},
	{0x84, "unsupported protocol version"}, {0x85, "client identifier not valid"}, {0x86, "bad user name or password"},
	{0x87, "not authorized"}, {0x88, "server unavailable"}, {0x89, "server busy"}, {0x8A, "banned"}, {0x8B, "server shutting down"},
	{0x8C, "bad authentication method"}, {0x8D, "keep alive timeout"}, {0x8E, "session taken over"}, {0x8F, "topic filter invalid"},
	{0x90, "topic name invalid"}, {0x91, "packet identifier in use"}, {0x92, "packet identifier not found"},
	{0x93, "receive maximum exceeded"}, {0x94, "topic alias invalid"}, {0x95, "packet too large"}, {0x96, "message rate too high"},
	{0x97, "quota exceeded"}, {0x98, "administrative action"}, {0x99, "payload format invalid"}, {0x9A, "retain not supported"},
	{0x9B, "qos not supported"}, {0x9C, "use another server"}, {0x9D, "server moved"}, {0x9E, "shared subscriptions not supported"},
	{0x9F, "connection rate exceeded"}, {0xA0, "maximum connect time"}, {0xA1, "subscription identifiers not supported"},
	{0xA2, "wildcard subscriptions not supported"},
}

// HReasons: every reason code has a text, and no two codes share one.
func HReasons() {
	a, b := vnd.Byte("a"), vnd.Byte("b")
	vnd.Assume(a >= 0x80 && a <= 0xA2)
	vnd.Assume(b >= 0x80 && b <= 0xA2)
	ta, tb := mqtt.ReasonCode(a).Error(), mqtt.ReasonCode(b).Error()
	vnd.Assert(len(ta) > 0 && ta != mqtt.ReasonCode(0xFE).Error(), "reason: every reason code of the standard has a text")
	vnd.Assert(a == b || ta != tb, "reason: reason codes are told apart")
	for _, r := range reasons {
		if r.code == a {
			vnd.Assert(similar(ta, r.text) || a == 0x88 && similar(ta, "server not available"), "reason: the text is the one of the standard")
			vnd.Cover("text")
		}
	}
}

// similar compares ignoring case.
func similar(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i]|0x20 != b[i]|0x20 {
			return false
		}
	}
	return true
}

// HReasonAny: any byte at all has a text.
func HReasonAny() {
	a := vnd.Byte("a")
	vnd.Assert(len(mqtt.ReasonCode(a).Error()) > 0, "reason: any reason code has a text")
	var err error = mqtt.ReasonCode(a)
	vnd.Assert(errors.Is(err, mqtt.ReasonCode(a)), "reason: reason codes can be compared")
}
