// Package client holds the harnesses for the MQTT client: a scripted
// connection, a recording storage, and one function per exploration.
package client

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/vnd"
)

var (
	errIO    = errors.New("i/o failure")
	errStore = errors.New("storage failure")
)

// kinds of connection operations that can be made to fail
const (
	opNone = iota
	opDeadline
	opWrite
	opRead
	opClose
)

// conn is a connection to a scripted server. Data the server sends is queued
// in in; what the client writes is collected in out, one element per Write.
type conn struct {
	in       []byte
	pos      int
	eof      bool // the server has closed the connection
	out      [][]byte
	deadline time.Time
	closed   bool
	late     bool // written to after Close
	ops      [opClose + 1]int
	failOp   int // the failAt-th operation of this kind fails
	failAt   int
	failed   bool
	part     int    // bytes written by a write that fails
	torn     bool   // a packet was written only in part
	cut      []byte // that part
	begun    bool   // a packet was written
	ended    bool   // a DISCONNECT was written
	loose    bool   // any order of packets will do
	step     int    // deliver at most this many bytes per Read
	stall    int    // before this offset of the input, time out once
	wake     chan struct{}
	onWrite  func(b []byte)
	reading  bool
	full     bool          // nothing can be written
	points   bool          // reads and writes are scheduling points
	takes    time.Duration // time that passes while data is read
}

func newConn() *conn { return &conn{wake: make(chan struct{}, 1), stall: -1} }

func (c *conn) fail(op int) bool {
	c.ops[op]++
	if c.failOp == op && c.ops[op] == c.failAt {
		c.failed = true
		return true
	}
	return false
}

// feed queues a packet from the server.
func (c *conn) feed(b ...byte) {
	c.in = append(c.in, b...)
	c.poke()
}

func (c *conn) poke() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *conn) Read(p []byte) (int, error) {
	if c.points {
		vnd.SchedPoint()
	}
	if c.fail(opRead) {
		return 0, errIO
	}
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(p) == 0 {
			return 0, nil
		}
		if c.stall == c.pos {
			c.stall = -1
			return 0, os.ErrDeadlineExceeded
		}
		if !c.deadline.IsZero() && !c.deadline.After(time.Now()) {
			return 0, os.ErrDeadlineExceeded
		}
		if n := len(c.in) - c.pos; n > 0 {
			if n > len(p) {
				n = len(p)
			}
			if c.step > 0 && n > c.step {
				n = c.step
			}
			if c.stall > c.pos && c.pos+n > c.stall {
				n = c.stall - c.pos
			}
			copy(p, c.in[c.pos:c.pos+n])
			c.pos += n
			if c.takes > 0 {
				vnd.Advance(c.takes)
			}
			return n, nil
		}
		if c.eof {
			return 0, io.EOF
		}
		if c.deadline.IsZero() {
			<-c.wake
			continue
		}
		t := time.NewTimer(c.deadline.Sub(time.Now()))
		select {
		case <-c.wake:
			t.Stop()
		case <-t.C:
			return 0, os.ErrDeadlineExceeded
		}
	}
}

func (c *conn) Write(p []byte) (int, error) {
	if c.points {
		vnd.SchedPoint()
	}
	if c.fail(opWrite) {
		n := c.part
		if n > len(p) {
			n = len(p)
		}
		c.cut = append([]byte{}, p[:n]...)
		c.torn = n > 0 && n < len(p)
		return n, errIO
	}
	if c.closed {
		c.late = true
		return 0, net.ErrClosed
	}
	if !c.deadline.IsZero() && !c.deadline.After(time.Now()) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.full {
		if c.deadline.IsZero() {
			<-make(chan bool)
		}
		<-time.NewTimer(c.deadline.Sub(time.Now())).C
		return 0, os.ErrDeadlineExceeded
	}
	vnd.Assert(!c.torn, "wire: nothing is written behind a part of a packet")
	if len(p) > 0 && !c.loose {
		vnd.Assert((p[0]>>4 == 1) == !c.begun, "wire: CONNECT is the first packet of a connection and no other")
		vnd.Assert(!c.ended, "wire: nothing is written after DISCONNECT")
		c.begun, c.ended = true, p[0]>>4 == 14
	}
	b := append([]byte{}, p...)
	c.out = append(c.out, b)
	if c.onWrite != nil {
		c.onWrite(b)
	}
	if c.points {
		vnd.SchedPoint()
	}
	return len(p), nil
}

func (c *conn) Close() error {
	if c.fail(opClose) {
		return errIO
	}
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.poke()
	return nil
}

// reopen stands for a new connection to the server; what was left unread
// belongs to the old one.
func (c *conn) reopen() {
	c.closed, c.torn, c.eof, c.begun, c.ended = false, false, false, false, false
	c.in, c.pos = nil, 0
	c.deadline = time.Time{}
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "peer" }

func (c *conn) LocalAddr() net.Addr  { return addr{} }
func (c *conn) RemoteAddr() net.Addr { return addr{} }

func (c *conn) SetDeadline(t time.Time) error {
	if c.fail(opDeadline) {
		return errIO
	}
	if c.closed {
		return net.ErrClosed
	}
	c.deadline = t
	return nil
}

func (c *conn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return c.SetDeadline(t) }

// sent is one packet the client has written.
type sent struct {
	typ, flags byte
	c          *ref.Cur
	b          []byte
}

// packets splits everything written into packets; a stream that is not a
// sequence of whole packets fails the check.
func (c *conn) packets() []sent {
	var all []byte
	for _, b := range c.out {
		all = append(all, b...)
	}
	var out []sent
	for len(all) > 0 {
		h := &ref.Cur{B: all}
		h.Byte()
		n := int(h.Var())
		whole := !h.Bad && n <= h.Left()
		vnd.Assert(whole, "wire: everything written is a sequence of whole packets")
		if !whole {
			return out
		}
		b := all[:h.Pos+n]
		t, f, cur := ref.Head(b)
		out = append(out, sent{t, f, cur, b})
		all = all[h.Pos+n:]
	}
	return out
}

// since gives the packets written after the first n.
func (c *conn) since(n int) []sent {
	p := c.packets()
	if n > len(p) {
		return nil
	}
	return p[n:]
}

// ---- packets from the server ----

func connack(session, code byte, ps ...ref.Prop) []byte {
	return ref.Packet(2, 0, ref.AppProps([]byte{session, code}, ps))
}

func publish(flags byte, topic string, id uint16, payload ...byte) []byte {
	b := ref.AppStr(nil, []byte(topic))
	if flags>>1&3 != 0 {
		b = ref.AppU16(b, id)
	}
	b = append(b, 0)
	return ref.Packet(3, flags, append(b, payload...))
}

// ack is PUBACK, PUBREC, PUBREL or PUBCOMP (4 to 7).
func ack(typ byte, id uint16, code byte) []byte {
	var f byte
	if typ == 6 {
		f = 2
	}
	b := ref.AppU16(nil, id)
	if code != 0 {
		b = append(b, code)
	}
	return ref.Packet(typ, f, b)
}

// acks is SUBACK or UNSUBACK (9 or 11).
func acks(typ byte, id uint16, codes ...byte) []byte {
	b := ref.AppU16(nil, id)
	b = append(b, 0)
	return ref.Packet(typ, 0, append(b, codes...))
}

// ---- clients ----

func within(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

// rm is a Receive Maximum property, left out when n is 0.
func rm(n uint16) []ref.Prop {
	if n == 0 {
		return nil
	}
	return []ref.Prop{{ID: 0x21, Num: uint32(n)}}
}

// online gives a client whose handshake is done, having checked that it
// succeeded, and the number of packets written for it.
func online(nc *conn, p *packets.Connect, ps ...ref.Prop) *mqtt.Client {
	c := mqtt.NewClient(nc)
	handshake(c, nc, p, ps...)
	return c
}

func handshake(c *mqtt.Client, nc *conn, p *packets.Connect, ps ...ref.Prop) {
	if p == nil {
		p = &packets.Connect{}
	}
	if p.KeepAlive == 0 {
		p.KeepAlive = 600
	}
	if p.ClientId == "" {
		p.ClientId = "id"
	}
	nc.feed(connack(0, 0, ps...)...)
	ctx, cancel := within(time.Minute)
	defer cancel()
	err := c.Connect(ctx, p)
	vnd.Assert(err == nil, "handshake: a successful CONNACK connects")
	vnd.Assume(err == nil)
}

// poll lets the client handle one packet the server sent, or time out.
func poll(c *mqtt.Client) error {
	ctx, cancel := within(time.Second)
	defer cancel()
	return c.Poll(ctx)
}

// drain takes an event without waiting.
func drain(ch mqtt.EventChannel) (e *mqtt.Event, ok bool) {
	select {
	case e, ok = <-ch.C:
		return e, ok && e != nil
	default:
		return nil, false
	}
}

func str(s string) primitives.PrimitiveString        { return primitives.PrimitiveString(s) }
func u16(n uint16) primitives.PrimitiveUint16        { return primitives.PrimitiveUint16(n) }
func packetsU32(n uint32) primitives.PrimitiveUint32 { return primitives.PrimitiveUint32(n) }
