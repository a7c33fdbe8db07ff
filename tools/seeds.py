# Planted bugs: each breaks one property, compiles and passes the tests. See mkseeds.py.

HELPER = '''package mqtt

import (
	"context"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
)

// seedConn is a connection whose peer is the test.
type seedConn struct {
	mu       sync.Mutex
	cond     *sync.Cond
	in, out  []byte
	closed   int
	deadline time.Time
	onWrite  func(b []byte) error
	onSet    func(t time.Time) error
	onClose  func() error
}

func newSeedConn() *seedConn {
	s := &seedConn{}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *seedConn) feed(b ...byte) {
	s.mu.Lock()
	s.in = append(s.in, b...)
	s.cond.Broadcast()
	s.mu.Unlock()
}

func (s *seedConn) take() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	b := s.out
	s.out = nil
	return b
}

func (s *seedConn) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.in) == 0 {
		if s.closed > 0 {
			return 0, net.ErrClosed
		}
		if !s.deadline.IsZero() {
			return 0, os.ErrDeadlineExceeded
		}
		s.cond.Wait()
	}
	n := copy(b, s.in)
	s.in = s.in[n:]
	return n, nil
}

func (s *seedConn) Write(b []byte) (int, error) {
	if s.onWrite != nil {
		if err := s.onWrite(b); err != nil {
			return 0, err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.out = append(s.out, b...)
	return len(b), nil
}

func (s *seedConn) Close() error {
	s.mu.Lock()
	s.closed++
	s.cond.Broadcast()
	s.mu.Unlock()
	if s.onClose != nil {
		return s.onClose()
	}
	return nil
}

func (s *seedConn) LocalAddr() net.Addr  { return nil }
func (s *seedConn) RemoteAddr() net.Addr { return nil }
func (s *seedConn) SetDeadline(t time.Time) error {
	if s.onSet != nil {
		if err := s.onSet(t); err != nil {
			return err
		}
	}
	s.mu.Lock()
	s.deadline = t
	s.mu.Unlock()
	return nil
}
func (s *seedConn) SetReadDeadline(t time.Time) error  { return nil }
func (s *seedConn) SetWriteDeadline(t time.Time) error { return nil }

func seedCtx() context.Context {
	ctx, _ := context.WithTimeout(context.Background(), 5*time.Second)
	return ctx
}

// seedConnect returns a client that is connected; props are the properties of the CONNACK.
func seedConnect(t *testing.T, c *packets.Connect, props ...byte) (*Client, *seedConn) {
	t.Helper()
	s := newSeedConn()
	cl := NewClient(s)
	if c == nil {
		c = &packets.Connect{KeepAlive: 60, Version: 5}
	}
	s.feed(append([]byte{0x20, byte(3 + len(props)), 0, 0, byte(len(props))}, props...)...)
	if err := cl.Connect(seedCtx(), c); err != nil {
		t.Fatal("connect:", err)
	}
	s.take()
	return cl, s
}

// within fails the test if f takes more than a few seconds.
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal(what + " hangs")
	}
}
'''

PK, PRIM = "mqtt/packets", "mqtt/packets/primitives"
S = []


def seed(id, prop, pkg, edits, needs, breaks, test, helper=None):
    S.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, needs=needs, breaks=breaks, test=test,
                  helper=(pkg == "mqtt") if helper is None else helper))


def packets_test(body, imports=("testing",)):
    return "package packets\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\n" + body


def mqtt_test(body, imports=("testing",)):
    return "package mqtt\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\n" + body


# ---------------------------------------------------------------- wire format

seed("varint-threshold", "C01", PK,
     [(PRIM + "/varint.go", "} else if *v < 2_097_152 {", "} else if *v <= 2_097_152 {")],
     "a length of exactly 2,097,152", "the announced length of the number is one less than the bytes written",
     packets_test('''func TestSeed(t *testing.T) {
	v := primitives.VariableByteInt(2097152)
	var b bytes.Buffer
	n, err := v.WriteTo(&b)
	if err != nil || int(n) != b.Len() || int(v.Length(false)) != b.Len() || v.Length(true) != v.Length(false)+1 {
		t.Fatalf("%d bytes written, length %d", b.Len(), v.Length(false))
	}
}
''', ("bytes", "testing", "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives")))

seed("header-flags-kept", "C02", PK,
     [(PK + "/packet.go", "	f.Header &= ^(f.Header & 0x0F)\n	f.Header |= flags & 0x0F", "	f.Header &= ^(flags & 0x0F)\n	f.Header |= flags & 0x0F")],
     "flags set a second time with fewer bits than before", "flags set earlier survive, so a message sent again without retain is sent with retain",
     packets_test('''func TestSeed(t *testing.T) {
	var f FixedHeader
	f.SetType(PUBLISH)
	f.SetFlags(0x0B)
	f.SetFlags(0x02)
	if f.GetFlags() != 2 || f.GetType() != PUBLISH {
		t.Fatal(f.GetFlags(), f.GetType())
	}
}
'''))

seed("connect-auth-data", "C03", PK,
     [(PK + "/connect.go", "		propertiesLen += c.AuthenticationData.Length(true)\n", "		if len(c.AuthenticationData) > 0 {\n			propertiesLen += c.AuthenticationData.Length(true)\n		}\n")],
     "an authentication method without authentication data", "the property length is three short, so that the server takes the rest of the properties for the payload",
     packets_test('''func TestSeed(t *testing.T) {
	c := Connect{Version: 5, AuthenticationMethod: "m"}
	var b bytes.Buffer
	if _, err := c.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	if int(b.Bytes()[1])+2 != b.Len() {
		t.Fatal("remaining length", b.Bytes()[1], "of", b.Len())
	}
}
''', ("bytes", "testing")))

seed("connect-will-flags", "C03", PK,
     [(PK + "/connect.go", "		flags |= primitives.PrimitiveByte(c.WillQos) << 3\n", "		if !c.WillRetain {\n			flags |= primitives.PrimitiveByte(c.WillQos) << 3\n		}\n")],
     "a will that is retained and has a QoS above 0", "the will loses its QoS",
     packets_test('''func TestSeed(t *testing.T) {
	c := Connect{Version: 5, Will: "w", WillTopic: "t", WillRetain: true, WillQos: QoS2}
	var b bytes.Buffer
	if _, err := c.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	if b.Bytes()[9] != 0x34 {
		t.Fatalf("flags %#x", b.Bytes()[9])
	}
}
''', ("bytes", "testing")))

seed("publish-subid-write", "C04", PK,
     [(PK + "/publish.go", "		if count, err = p.SubscriptionIdentifier.WriteToAsProperty(0x0B, w); err != nil {", "		id := primitives.PrimitiveUint32(p.SubscriptionIdentifier)\n		if p.SubscriptionIdentifier < 2_097_152 {\n			count, err = p.SubscriptionIdentifier.WriteToAsProperty(0x0B, w)\n		} else {\n			count, err = id.WriteToAsProperty(0x0B, w)\n		}\n		if err != nil {")],
     "a subscription identifier that takes four bytes", "the identifier is written as a fixed-width number of the same length",
     packets_test('''func TestSeed(t *testing.T) {
	p := Publish{Topic: "t", SubscriptionIdentifier: 2097152}
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	var q Publish
	if _, err := q.ReadFrom(&b); err != nil || q.SubscriptionIdentifier != p.SubscriptionIdentifier {
		t.Fatal(err, q.SubscriptionIdentifier)
	}
}
''', ("bytes", "testing")))

seed("publish-empty-string-property", "C05", PK,
     [(PK + "/publish.go", "			var k, v primitives.PrimitiveString\n			if count, err = k.ReadFrom(r); err != nil {\n				return 0, err\n			}\n\n			var count2 int64\n			if count2, err = v.ReadFrom(r); err != nil {\n				return 0, err\n			}\n			count += count2\n			p.UserProperties[k] = v",
       "			var k, v primitives.PrimitiveString\n			if count, err = k.ReadFrom(r); err != nil {\n				return 0, err\n			}\n\n			var count2 int64\n			if count2, err = v.ReadFrom(r); err != nil {\n				return 0, err\n			}\n			count += count2\n			if v != \"\" {\n				p.UserProperties[k] = v\n			}")],
     "a user property with an empty value", "the property is not in the decoded message",
     packets_test('''func TestSeed(t *testing.T) {
	b := bytes.NewReader([]byte{0x30, 3 + 1 + 6, 0, 1, 't', 6, 0x26, 0, 1, 'k', 0, 0})
	var p Publish
	if _, err := p.ReadFrom(b); err != nil {
		t.Fatal(err)
	}
	if v, ok := p.UserProperties["k"]; !ok || v != "" {
		t.Fatal(p.UserProperties)
	}
}
''', ("bytes", "testing")))

seed("subscribe-loop-variable", "C06", PK,
     [(PK + "/subscribe.go", "		payloadLen += topic.filter.Length(false) + topic.options.Length(false)", "		payloadLen += primitives.VariableByteInt(uint8(topic.filter.Length(false))) + topic.options.Length(false)")],
     "a topic filter of 254 bytes or more", "the remaining length is 256 too short",
     packets_test('''func TestSeed(t *testing.T) {
	s := Subscribe{PacketIdentifier: 1, Topics: make([]Topic, 1)}
	s.Topics[0].SetFilter(strings.Repeat("a", 300))
	var b bytes.Buffer
	if _, err := s.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	var f FixedHeader
	n, _ := f.ReadFrom(bytes.NewReader(b.Bytes()))
	if int(n)+int(f.Remaining) != b.Len() {
		t.Fatal(n, f.Remaining, b.Len())
	}
}
''', ("bytes", "strings", "testing")))

seed("pubrel-flags-lost", "C07", PK,
     [(PK + "/puback.go", "	p.Header.SetType(PUBREL)\n\n	// Pubrel has a reserved bit set to 1 in the fixed header\n	p.Header.SetFlags(0x02)\n",
       "	// Pubrel has a reserved bit set to 1 in the fixed header\n	if p.Header.GetType() == 0 {\n		p.Header.SetFlags(0x02)\n	}\n	p.Header.SetType(PUBREL)\n")],
     "a PUBREL whose header names its type already", "the reserved flags of the PUBREL are zero, which the server must refuse",
     packets_test('''func TestSeed(t *testing.T) {
	p := Pubrel{}
	p.Header.SetType(PUBREL)
	p.PacketIdentifier = 1
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil || b.Bytes()[0] != 0x62 {
		t.Fatalf("%v %#x", err, b.Bytes())
	}
}
''', ("bytes", "testing")))

seed("auth-properties-shadow", "C08", PK,
     [(PK + "/disconnect.go", "	if n >= int64(d.Header.Remaining) {\n		return\n	}\n\n	/* Properties begin */", "	if n >= int64(d.Header.Remaining) || d.ReasonCode == 0 {\n		return\n	}\n\n	/* Properties begin */")],
     "a DISCONNECT with reason code 0 and properties", "the properties are not decoded",
     packets_test('''func TestSeed(t *testing.T) {
	d := Disconnect{Header: FixedHeader{Header: 0xE0, Remaining: 6}}
	if _, err := d.ReadFrom(bytes.NewReader([]byte{0, 4, 0x1F, 0, 1, 'x'})); err != nil || d.ReasonString != "x" {
		t.Fatal(err, d.ReasonString)
	}
}
''', ("bytes", "testing")))

seed("suback-codes-and-properties", "C09", PK,
     [(PK + "/suback.go", "SUBACKEDIT", "")], "", "", "") if False else None

# --------------------------------------------------------------------- client

seed("match-plus-empty-level", "M01", "mqtt",
     [("mqtt/client.go", "			for topicPos < len(topic) && topic[topicPos] != '/' {\n				topicPos++\n			}\n", "			for topicPos++; topicPos < len(topic) && topic[topicPos] != '/'; {\n				topicPos++\n			}\n")],
     "a topic with an empty level where the filter has '+'", "'+' does not match an empty level any more",
     mqtt_test('''func TestSeed(t *testing.T) {
	c := NewClient(nil)
	if !c.matchTopic("a//b", "a/+/b") || c.matchTopic("a/x/y/b", "a/+/b") || !c.matchTopic("/b", "+/b") {
		t.Fatal("empty level")
	}
}
'''))

seed("refused-connect-stays", "M02", "mqtt",
     [("mqtt/client.go", "	if connack.ReasonCode >= 128 {", "	if connack.ReasonCode > 128 {")],
     "a CONNACK with reason code 0x80 exactly", "the client believes it is connected after an unspecified error",
     mqtt_test('''func TestSeed(t *testing.T) {
	s := newSeedConn()
	c := NewClient(s)
	s.feed(0x20, 3, 0, 0x80, 0)
	if err := c.Connect(seedCtx(), &packets.Connect{Version: 5}); err == nil || c.IsConnected() {
		t.Fatal(err, c.IsConnected())
	}
}
''', ("testing", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("pubrel-answer-order", "M05", "mqtt",
     [("mqtt/client.go", "		if c.receiveQuota == 0 && publish.QoS > 0 {", "		if c.receiveQuota == 0 && publish.QoS == packets.QoS1 {")],
     "a QoS 2 message while the receive maximum is used up", "the message is accepted and the quota wraps around to 65,535",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, &packets.Connect{Version: 5, ReceiveMaximum: 1})
	s.feed(0x34, 6, 0, 1, 't', 0, 1, 0)
	s.feed(0x34, 6, 0, 1, 't', 0, 2, 0)
	if err := c.Poll(seedCtx()); err != nil {
		t.Fatal(err)
	}
	if err := c.Poll(seedCtx()); err == nil || c.IsConnected() {
		t.Fatal(err)
	}
}
''', ("testing", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("pubrec-drop-before-store", "M07", "mqtt",
     [("mqtt/client.go", "			pubrec := &packets.Pubrec{\n				Puback: packets.Puback{\n					PacketIdentifier: publish.PacketIdentifier,\n				},\n			}\n			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)",
       "			pubrec := &packets.Pubrec{\n				Puback: packets.Puback{\n					PacketIdentifier: publish.PacketIdentifier,\n				},\n			}\n			c.storage.Drop(pubrec.PacketIdentifier.Value())\n			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)")],
     "an incoming QoS 2 message with the packet identifier of an outgoing message that is not acknowledged", "the stored outgoing message is replaced by the record of the incoming one",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	m := memory.NewStorage()
	c.SetStorage(m)
	if err := c.Publish(seedCtx(), &packets.Publish{Topic: "t", QoS: packets.QoS1, PacketIdentifier: 7}); err != nil {
		t.Fatal(err)
	}
	s.feed(0x34, 6, 0, 1, 't', 0, 7, 0)
	if err := c.Poll(seedCtx()); err != nil {
		t.Fatal(err)
	}
	p, err := m.Get(7)
	if _, ok := p.(*packets.Publish); err != nil || !ok {
		t.Fatalf("%v %T", err, p)
	}
}
''', ("testing", "github.com/waj334/tinygo-mqtt/mqtt/packets", "github.com/waj334/tinygo-mqtt/mqtt/storage/memory")))

seed("disconnect-expiry", "M11", "mqtt",
     [("mqtt/client.go", "	if c.sessionExpiryInterval != 0 {\n		disconnect.SessionExpiryInterval = primitives.PrimitiveUint32(sessionExpiryInterval)\n	}\n",
       "	if c.sessionExpiryInterval != 0 && uint32(sessionExpiryInterval) <= c.sessionExpiryInterval {\n		disconnect.SessionExpiryInterval = primitives.PrimitiveUint32(sessionExpiryInterval)\n	}\n")],
     "a disconnect that asks for a longer session than the CONNECT did", "the session expiry interval is not sent",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, &packets.Connect{Version: 5, SessionExpiryInterval: 10})
	if err := c.DisconnectWithSessionExpiry(seedCtx(), false, 100); err != nil {
		t.Fatal(err)
	}
	if b := s.take(); !bytes.Contains(b, []byte{0x11, 0, 0, 0, 100}) {
		t.Fatalf("% x", b)
	}
}
''', ("bytes", "testing", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("subscribe-early-unlock", "M17", "mqtt",
     [("mqtt/client.go", "	// Send the SUBSCRIBE control packet\n	if err = c.send(subscribe)", "	// Send the SUBSCRIBE control packet\n	unlockConn.Do(c.connMutex.Unlock)\n	if err = c.send(subscribe)")],
     "a subscribe while another call is in the middle of writing its packet", "the SUBSCRIBE is written into the other packet",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	var busy, bad int32
	s.onWrite = func(b []byte) error {
		if !atomic.CompareAndSwapInt32(&busy, 0, 1) {
			atomic.StoreInt32(&bad, 1)
			return nil
		}
		time.Sleep(2 * time.Millisecond)
		atomic.StoreInt32(&busy, 0)
		return nil
	}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 100; n++ {
				if i == 0 {
					ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
					c.Subscribe(ctx, make([]Topic, 1))
					cancel()
				} else {
					c.Publish(context.Background(), &packets.Publish{Topic: "t"})
				}
			}
		}(i)
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal("two writes at once")
	}
}
''', ("context", "sync", "sync/atomic", "testing", "time", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("poll-deadline-kept", "M22", "mqtt",
     [("mqtt/client.go", "	if !deadline.IsZero() {\n		// Extend I/O deadline\n", "	if !deadline.IsZero() && deadline.After(time.Now()) {\n		// Extend I/O deadline\n"),
      ("mqtt/client.go", "	} else {\n		// Unset any deadline\n		c.conn.SetDeadline(time.Time{})\n	}", "	} else if deadline.IsZero() {\n		// Unset any deadline\n		c.conn.SetDeadline(time.Time{})\n	}")],
     "a packet whose first byte arrives just as the poll's time is over", "the rest of the packet times out and is lost",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	s.feed(0xD0, 0)
	ctx, cancel := context.WithDeadline(context.Background(), time.Now().Add(-time.Millisecond))
	defer cancel()
	last := time.Time{}
	s.onSet = func(d time.Time) error { last = d; return nil }
	if err := c.Poll(ctx); err != nil {
		t.Fatal(err)
	}
	if !last.IsZero() && time.Until(last) < time.Second {
		t.Fatal("the deadline was not extended")
	}
}
''', ("context", "testing", "time")))

seed("publish-payload-buffer", "M30", "mqtt",
     [("mqtt/packets/publish.go", "		p.Payload = make([]byte, payloadLen)\n", "		if int64(cap(payloadBuffer)) < payloadLen {\n			payloadBuffer = make([]byte, payloadLen)\n		}\n		p.Payload = payloadBuffer[:payloadLen]\n"),
      ("mqtt/packets/publish.go", "func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {\n	var count, offset int64\n", "// payloadBuffer saves allocations\nvar payloadBuffer []byte\n\nfunc (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {\n	var count, offset int64\n")],
     "a second message of the same size or a smaller one while the first is still looked at", "the payload of the message delivered first changes",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	ch := c.CreateEventChannel(4)
	s.feed(0x30, 5, 0, 1, 't', 0, 'x')
	s.feed(0x30, 5, 0, 1, 't', 0, 'y')
	for i := 0; i < 2; i++ {
		if err := c.Poll(seedCtx()); err != nil {
			t.Fatal(err)
		}
	}
	for _, want := range []string{"x", "y"} {
		e := <-ch.C
		if p := e.Data.(*packets.Publish); string(p.Payload) != want {
			t.Fatalf("%q, not %q", p.Payload, want)
		}
	}
}
''', ("testing", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("writebyte-scratch", "M31", PRIM,
     [("mqtt/packets/primitives/io.go", "	_, err := w.Write(unsafe.Slice(&b, 1))\n	return err\n", "	scratch[0] = b\n	_, err := w.Write(scratch[:])\n	return err\n"),
      ("mqtt/packets/primitives/io.go", "//go:inline\nfunc WriteByte(", "// scratch keeps the byte off the heap\nvar scratch [1]byte\n\n//go:inline\nfunc WriteByte(")],
     "two clients that encode packets at the same time", "one of them writes the byte of the other",
     '''package primitives

import "testing"

// slow takes the byte it is given only after another client has written one.
type slow struct{ got byte }
type fast struct{}

func (fast) Write(b []byte) (int, error) { return len(b), nil }
func (s *slow) Write(b []byte) (int, error) {
	if err := WriteByte('B', fast{}); err != nil {
		return 0, err
	}
	s.got = b[0]
	return len(b), nil
}

func TestSeed(t *testing.T) {
	s := &slow{}
	if err := WriteByte('A', s); err != nil || s.got != 'A' {
		t.Fatalf("%q %v", s.got, err)
	}
}
''')

seed("publish-remaining-kept", "C15", PK,
     [("mqtt/packets/publish.go", "	p.Header.Remaining = variableHeaderLen + payloadLen\n", "	if p.Header.Remaining == 0 {\n		p.Header.Remaining = variableHeaderLen + payloadLen\n	}\n")],
     "a message that is encoded a second time with another payload", "the remaining length is that of the first encoding",
     packets_test('''func TestSeed(t *testing.T) {
	p := &Publish{Topic: "t", Payload: []byte("one")}
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	b.Reset()
	p.Payload = []byte("three")
	if _, err := p.WriteTo(&b); err != nil || int(b.Bytes()[1]) != b.Len()-2 {
		t.Fatalf("%v % x", err, b.Bytes())
	}
}
''', ("bytes", "testing")))

seed("unsubscribe-deadline-left", "M29", "mqtt",
     [("mqtt/client.go", "	defer unlockConn.Do(c.connMutex.Unlock)\n\n	// The connection may have ended in the meantime\n	if !c.IsConnected() {\n		return ErrClientNotConnected\n	}\n\n	// Set I/O deadline\n	if err = c.conn.SetDeadline(deadline); err != nil {\n		return err\n	}\n\n	var _topics []packets.Topic\n	for index := range topics {\n		t :=",
       "	defer unlockConn.Do(c.connMutex.Unlock)\n\n	// The connection may have ended in the meantime\n	if !c.IsConnected() {\n		return ErrClientNotConnected\n	}\n\n	// Set I/O deadline\n	if ok {\n		if err = c.conn.SetDeadline(deadline); err != nil {\n			return err\n		}\n	}\n\n	var _topics []packets.Topic\n	for index := range topics {\n		t :=")],
     "an unsubscribe without a deadline after a call with one", "the request is written under the deadline of the earlier call",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	if err := c.Publish(ctx, &packets.Publish{Topic: "t"}); err != nil {
		t.Fatal(err)
	}
	left := make(chan time.Time, 1)
	s.onWrite = func([]byte) error {
		s.mu.Lock()
		left <- s.deadline
		s.mu.Unlock()
		return nil
	}
	ctx2, cancel2 := context.WithCancel(context.Background())
	go c.Unsubscribe(ctx2, []string{"a"})
	d := <-left
	cancel2()
	if !d.IsZero() {
		t.Fatal("written under the deadline of another call")
	}
}
''', ("context", "testing", "time", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("pubrec-store-error-returned", "M32", "mqtt",
     [("mqtt/client.go", "			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)\n", "			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {\n				return err\n			}\n")],
     "a storage that fails while an incoming QoS 2 message is recorded", "a lock stays held and the message is not signalled",
     mqtt_test('''type seedStorage struct{}

func (seedStorage) Store(uint16, any) error     { return errors.New("full") }
func (seedStorage) Get(uint16) (any, error)     { return nil, storage.ErrNoEntry }
func (seedStorage) Drop(uint16) error           { return storage.ErrNoEntry }

func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	c.SetStorage(seedStorage{})
	s.feed(0x34, 6, 0, 1, 't', 0, 7, 0)
	c.Poll(seedCtx())
	within(t, "SetStorage after a failing storage", func() { c.SetStorage(nil) })
}
''', ("errors", "testing", "github.com/waj334/tinygo-mqtt/mqtt/storage")))

seed("pingresp-deadline-adds-up", "M03", "mqtt",
     [("mqtt/client.go", "		c.mutex.Lock()\n		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)\n", "		c.mutex.Lock()\n		c.pingRespDeadline = c.pingRespDeadline.Add(c.keepAliveInterval * 2)\n")],
     "several PINGRESPs, then none for more than twice the interval", "the timeout comes too late by as much as was added up",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, &packets.Connect{Version: 5, KeepAlive: 1})
	for i := 0; i < 3; i++ {
		s.feed(0xD0, 0)
		if err := c.Poll(seedCtx()); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(2500 * time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
	defer cancel()
	if err := c.Poll(ctx); err == nil || c.IsConnected() {
		t.Fatal("no keep alive timeout")
	}
}
''', ("context", "testing", "time", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("close-one-binding", "M10", "mqtt",
     [("mqtt/client.go", "		if topicChan.id == channel.id {\n			delete(c.topicChans, key)\n		}\n", "		if topicChan.id == channel.id {\n			delete(c.topicChans, key)\n			break\n		}\n")],
     "a channel bound to two filters that is closed, and a message for the filter that stays", "the client panics",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	ch := c.CreateEventChannel(4)
	ts := make([]Topic, 2)
	ts[0].SetFilter("a")
	ts[1].SetFilter("b")
	ts[0].SetEventChannel(ch)
	ts[1].SetEventChannel(ch)
	s.onWrite = func(b []byte) error {
		if b[0] == 0x82 {
			s.feed(0x90, 5, b[2], b[3], 0, 0, 0)
		}
		return nil
	}
	go c.Poll(seedCtx())
	if err := c.Subscribe(seedCtx(), ts); err != nil {
		t.Fatal(err)
	}
	c.CloseEventChannel(ch)
	for _, topic := range "ab" {
		s.feed(0x30, 4, 0, 1, byte(topic), 0)
		if err := c.Poll(seedCtx()); err != nil {
			t.Fatal(err)
		}
	}
}
''', ("testing",)))

seed("storage-drop-truncates", "M18", "mqtt/storage/memory",
     [("mqtt/storage/memory/memory.go", "			s.store = append(s.store[:i], s.store[i+1:]...)\n			return\n", "			last := len(s.store) - 1\n			s.store[i], s.store = s.store[last], s.store[:last]\n			if i > 0 && i < last {\n				s.store = s.store[:i+1]\n			}\n			return\n")],
     "dropping an entry that is neither the first nor the last of four", "another entry is lost",
     '''package memory

import "testing"

func TestSeed(t *testing.T) {
	s := NewStorage()
	for id := uint16(1); id < 5; id++ {
		s.Store(id, id)
	}
	s.Drop(2)
	for _, id := range []uint16{1, 3, 4} {
		if p, err := s.Get(id); err != nil || p != id {
			t.Fatal(id, p, err)
		}
	}
}
''')

seed("quota-not-renewed", "M23", "mqtt",
     [("mqtt/client.go", "	c.sendQuota = c.serverReceiveMaximum\n", "	if c.sendQuota == 0 || connack.ReceiveMaximum == 0 {\n		c.sendQuota = c.serverReceiveMaximum\n	}\n")],
     "a reconnect to a server with a lower receive maximum", "more messages are sent than the server accepts",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	if err := c.Disconnect(seedCtx(), false); err != nil {
		t.Fatal(err)
	}
	s.feed(0x20, 6, 0, 0, 3, 0x21, 0, 1)
	if err := c.Connect(seedCtx(), &packets.Connect{Version: 5, KeepAlive: 60}); err != nil {
		t.Fatal(err)
	}
	if err := c.Publish(seedCtx(), &packets.Publish{Topic: "t", QoS: packets.QoS1}); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if err := c.Publish(ctx, &packets.Publish{Topic: "t", QoS: packets.QoS1}); err == nil {
		t.Fatal("sent more than the receive maximum of the server")
	}
}
''', ("context", "testing", "time", "github.com/waj334/tinygo-mqtt/mqtt/packets")))

seed("suback-stops-at-refusal", "M13", "mqtt",
     [("mqtt/client.go", "				if err == nil {\n					err = ReasonCode(code)\n				}\n			} else {\n				// TODO: Consider session retention details here\n",
       "				if err == nil {\n					err = ReasonCode(code)\n				}\n			} else if err == nil {\n				// TODO: Consider session retention details here\n")],
     "a SUBACK that refuses a filter and grants a later one", "the channel of the granted filter is not bound",
     mqtt_test('''func TestSeed(t *testing.T) {
	c, s := seedConnect(t, nil)
	ch := c.CreateEventChannel(4)
	ts := make([]Topic, 2)
	ts[0].SetFilter("a")
	ts[1].SetFilter("b")
	ts[1].SetEventChannel(ch)
	s.onWrite = func(b []byte) error {
		if b[0] == 0x82 {
			s.feed(0x90, 5, b[2], b[3], 0, 0x87, 0)
		}
		return nil
	}
	go c.Poll(seedCtx())
	if err := c.Subscribe(seedCtx(), ts); err == nil {
		t.Fatal("no refusal")
	}
	time.Sleep(50 * time.Millisecond)
	for len(ch.C) > 0 {
		<-ch.C
	}
	s.feed(0x30, 4, 0, 1, 'b', 0)
	if err := c.Poll(seedCtx()); err != nil {
		t.Fatal(err)
	}
	if n := len(ch.C); n != 1 {
		t.Fatal("events:", n)
	}
	if e := <-ch.C; e.PacketType != packets.PUBLISH {
		t.Fatal(e.PacketType)
	}
	s.feed(0xD0, 0, 0x40, 2, 0, 9)
	c.Poll(seedCtx())
	c.Poll(seedCtx())
	if len(ch.C) != 0 {
		t.Fatal("the channel is not bound to the filter")
	}
}
''', ("testing", "time", "github.com/waj334/tinygo-mqtt/mqtt/packets")))
S = [s for s in S if s["test"]]
