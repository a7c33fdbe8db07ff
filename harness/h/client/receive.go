package client

import (
	"context"
	"errors"
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// acked checks that exactly one acknowledgement of the type with the
// identifier and a success code was written after the first n packets.
func acked(nc *conn, n int, typ byte, id uint16, msg string) bool {
	out := nc.since(n)
	ok := len(out) == 1
	if ok {
		c := out[0].c
		flags := byte(0)
		if typ == 6 {
			flags = 2
		}
		got := c.U16()
		code := byte(0)
		if c.Left() > 0 {
			code = c.Byte()
		}
		if c.Left() > 0 {
			c.Props()
		}
		ok = vnd.And(vnd.And(out[0].typ == typ, out[0].flags == flags), vnd.And(got == id, vnd.And(code < 0x80, vnd.And(!c.Bad, c.Left() == 0))))
	}
	vnd.Assert(ok, msg)
	return ok
}

// HReply: what the client answers to each packet a server may send.
func HReply() {
	nc := newConn()
	c := online(nc, nil, rm(8)...)
	s := &store{}
	withStore := vnd.Choice("storage", 2) == 1
	if withStore {
		c.SetStorage(s)
	}
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	n := 1
	pending := vnd.Choice("pending", 2) == 1
	switch kind := vnd.Choice("packet", 10); kind {
	case 0: // QoS 0
		fl := vnd.Byte("retain")
		vnd.Assume(fl <= 1)
		nc.feed(publish(fl, "a/b", 0, 7)...)
		vnd.Assert(poll(c) == nil, "reply: PUBLISH is processed")
		vnd.Assert(len(nc.packets()) == n, "reply: a QoS 0 message is not acknowledged")
		vnd.Cover("QoS 0")
	case 1, 2:
		fl := vnd.Byte("flags")
		vnd.Assume(fl <= 15)
		vnd.Assume(fl>>1&3 == byte(kind))
		nc.feed(publish(fl, "a/b", id, 7)...)
		vnd.Assert(poll(c) == nil, "reply: PUBLISH is processed")
		if kind == 1 {
			acked(nc, n, 4, id, "reply: a QoS 1 message is answered with one PUBACK")
		} else {
			acked(nc, n, 5, id, "reply: a QoS 2 message is answered with one PUBREC")
			n++
			nc.feed(ack(6, id, 0)...)
			vnd.Assert(poll(c) == nil, "reply: PUBREL is processed")
			acked(nc, n, 7, id, "reply: PUBREL is answered with one PUBCOMP")
			vnd.Assert(s.find(id) < 0, "reply: a completed exchange is not kept")
			vnd.Cover("QoS 2")
		}
	case 3: // PUBREL, known or not
		code := vnd.Byte("code")
		nc.feed(ack(6, id, code)...)
		vnd.Assert(poll(c) == nil, "reply: PUBREL is processed")
		acked(nc, n, 7, id, "reply: PUBREL is answered with one PUBCOMP")
		vnd.Cover("PUBREL")
	case 4, 5: // PUBREC
		if pending {
			p := message(2)
			p.PacketIdentifier = u16(id)
			ctx, cancel := within(time.Second)
			defer cancel()
			vnd.Assert(c.Publish(ctx, p) == nil, "reply: message is sent")
			n++
		}
		code := vnd.Byte("code")
		if kind == 4 {
			vnd.Assume(code < 0x80)
		} else {
			vnd.Assume(code >= 0x80)
		}
		nc.feed(ack(5, id, code)...)
		vnd.Assert(poll(c) == nil, "reply: PUBREC is processed")
		if kind == 4 {
			acked(nc, n, 6, id, "reply: PUBREC is answered with one PUBREL")
			vnd.Cover("PUBREC")
			nc.feed(ack(7, id, 0)...)
			vnd.Assert(poll(c) == nil, "reply: PUBCOMP is processed")
			vnd.Assert(len(nc.packets()) == n+1, "reply: PUBCOMP is not answered")
		} else {
			vnd.Assert(len(nc.packets()) == n, "reply: a PUBREC that reports a failure is not answered")
			vnd.Cover("PUBREC with a failure")
		}
	case 6, 7: // PUBACK and PUBCOMP, of known and unknown messages
		if pending {
			p := message(byte(kind - 5))
			p.PacketIdentifier = u16(id)
			ctx, cancel := within(time.Second)
			defer cancel()
			vnd.Assert(c.Publish(ctx, p) == nil, "reply: message is sent")
			n++
		}
		nc.feed(ack(byte(4+3*(kind-6)), id, vnd.Byte("code"))...)
		vnd.Assert(poll(c) == nil, "reply: PUBACK and PUBCOMP are processed")
		vnd.Assert(len(nc.packets()) == n, "reply: PUBACK and PUBCOMP are not answered")
		vnd.Cover("PUBACK or PUBCOMP")
	case 8: // packets without an answer
		switch vnd.Choice("other", 4) {
		case 0:
			nc.feed(acks(9, id, 0)...)
		case 1:
			nc.feed(acks(11, id, 0)...)
		case 2:
			nc.feed(0xD0, 0)
		case 3:
			nc.feed(ref.Packet(15, 0, []byte{0x18, 0})...)
		}
		vnd.Assert(poll(c) == nil, "reply: SUBACK, UNSUBACK, PINGRESP and AUTH are processed")
		vnd.Assert(len(nc.packets()) == n, "reply: SUBACK, UNSUBACK, PINGRESP and AUTH are not answered")
		vnd.Cover("no answer")
	case 9: // packets a server must not send
		t := []byte{1, 2, 8, 10, 12}[vnd.Choice("type", 5)]
		nc.feed(ref.Packet(t, 0, nil)...)
		vnd.Assert(poll(c) != nil, "reply: a packet the server must not send is reported")
		vnd.Assert(len(nc.packets()) <= n+1, "reply: a packet the server must not send is not answered")
		vnd.Cover("unexpected")
	}
	vnd.Assert(nc.pos == len(nc.in), "reply: the packet is consumed")
	// the client goes on
	nc.feed(publish(2, "z", 9)...)
	if c.IsConnected() && !nc.closed {
		k := len(nc.packets())
		vnd.Assert(poll(c) == nil, "reply: the client goes on")
		acked(nc, k, 4, 9, "reply: the client goes on")
	}
}

// HReceiveMaximum: a history of messages from the server against any Receive
// Maximum of the client.
func HReceiveMaximum() {
	nc := newConn()
	p := &packets.Connect{}
	limit := 65535
	switch vnd.Choice("limited", 3) {
	case 1:
		n := vnd.U16("rm")
		vnd.Assume(n != 0)
		p.ReceiveMaximum = u16(n)
		limit = int(n)
	case 2:
		n := 1 + vnd.Choice("rm", 2)
		p.ReceiveMaximum = u16(uint16(n))
		limit = n
	}
	var own []ref.Prop
	if vnd.Choice("server limited", 2) == 1 {
		own = rm(1) // what the server accepts says nothing about the client
	}
	c := online(nc, p, own...)
	ch := c.CreateEventChannel(32)
	var open []uint16
	next := uint16(1)
	steps := vnd.Param("steps", 4)
	for i := 0; i < steps; i++ {
		n := 4
		if len(open) > 0 {
			n = 6
		}
		w := len(nc.packets())
		for {
			if _, ok := drain(ch); !ok {
				break
			}
		}
		switch a := vnd.Choice("action", n); a {
		case 0, 1, 2:
			nc.feed(publish(byte(a)<<1, "t", next, 1)...)
			if a > 0 && len(open) >= limit {
				if op := []int{opNone, opDeadline, opWrite, opClose}[vnd.Choice("fault", 4)]; op != opNone {
					// the message beyond is not delivered and ends the connection in any case
					nc.failOp, nc.failAt = op, nc.ops[op]+vnd.Choice("fault at", 2)+1
					vnd.Assert(poll(c) != nil, "receive: exceeding the Receive Maximum is reported")
					if nc.failed {
						vnd.Assert(!c.IsConnected() && (op == opClose || nc.closed), "receive: the connection is closed")
						for {
							e, ok := drain(ch)
							if !ok {
								break
							}
							vnd.Assert(e.PacketType != packets.PUBLISH, "receive: the message beyond the limit is not delivered")
						}
						vnd.Cover("exceeded with a fault")
					}
					return
				}
			}
			err := poll(c)
			if a > 0 && len(open) >= limit {
				vnd.Assert(err != nil, "receive: exceeding the Receive Maximum is reported")
				out := nc.since(w)
				ok := len(out) == 1 && out[0].typ == 14
				vnd.Assert(ok, "receive: exactly a DISCONNECT answers a message beyond the Receive Maximum")
				if ok {
					vnd.Assert(out[0].c.Byte() == 0x93, "receive: the DISCONNECT gives reason 0x93")
				}
				vnd.Assert(err == mqtt.ReasonCode(0x93), "receive: exceeding the Receive Maximum is reported")
				vnd.Assert(nc.closed && !c.IsConnected(), "receive: the connection is closed")
				signalled := 0
				for {
					e, ok := drain(ch)
					if !ok {
						vnd.Assert(signalled == 1, "receive: the DISCONNECT is signalled")
						break
					}
					if e.PacketType == packets.DISCONNECT {
						signalled++
					}
					vnd.Assert(e.PacketType != packets.PUBLISH, "receive: the message beyond the limit is not delivered")
				}
				vnd.Cover("exceeded")
				return
			}
			vnd.Assert(err == nil, "receive: a message within the Receive Maximum is accepted")
			if err != nil {
				return
			}
			e, ok := drain(ch)
			vnd.Assert(ok && e.PacketType == packets.PUBLISH, "receive: a message within the Receive Maximum is delivered")
			if a == 1 {
				acked(nc, w, 4, next, "receive: QoS 1 is acknowledged")
			} else if a == 2 {
				acked(nc, w, 5, next, "receive: QoS 2 is acknowledged")
				open = append(open, next)
			}
			next++
		case 3: // of a message that is not known
			unknown := vnd.U16("unknown")
			vnd.Assume(unknown >= 100)
			nc.feed(ack(6, unknown, 0x92)...)
			vnd.Assert(poll(c) == nil, "receive: PUBREL is processed")
			acked(nc, w, 7, unknown, "receive: PUBREL is answered")
			vnd.Cover("release of an unknown message")
		case 5: // the same message again
			k := vnd.Choice("which", len(open))
			nc.feed(publish(12, "t", open[k], 1)...)
			vnd.Assert(poll(c) == nil, "receive: a repeated message is accepted")
			acked(nc, w, 5, open[k], "receive: a repeated message is acknowledged")
			for {
				e, ok := drain(ch)
				if !ok {
					break
				}
				vnd.Assert(e.PacketType != packets.PUBLISH, "receive: a repeated message is not delivered")
			}
			vnd.Cover("repeated")
		case 4:
			k := vnd.Choice("which", len(open))
			nc.feed(ack(6, open[k], 0)...)
			vnd.Assert(poll(c) == nil, "receive: PUBREL is processed")
			acked(nc, w, 7, open[k], "receive: PUBREL is answered")
			open = append(append([]uint16{}, open[:k]...), open[k+1:]...)
		}
		vnd.Assert(!nc.closed && c.IsConnected(), "receive: the connection stays")
	}
	vnd.Cover("history")
}

// HExactlyOnce: a QoS 2 message that the server repeats before it has seen the
// PUBREC is delivered once.
func HExactlyOnce() {
	nc := newConn()
	p := &packets.Connect{ReceiveMaximum: u16(uint16(1 + vnd.Choice("rm", 2)))}
	c := online(nc, p)
	if vnd.Choice("storage", 2) == 1 {
		c.SetStorage(&store{})
	}
	ch := c.CreateEventChannel(8)
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	delivered := func() int {
		n := 0
		for {
			e, ok := drain(ch)
			if !ok {
				return n
			}
			if e.PacketType == packets.PUBLISH {
				n++
			}
		}
	}
	n := 0
	rounds := vnd.Param("rounds", 2)
	for r := 0; r < rounds; r++ {
		k := 1 + vnd.Choice("copies", 3)
		for i := 0; i < k; i++ {
			fl := byte(4)
			if i > 0 {
				fl |= 8
			}
			w := len(nc.packets())
			nc.feed(publish(fl, "t", id, byte(r))...)
			vnd.Assert(poll(c) == nil, "exactly once: PUBLISH is processed")
			acked(nc, w, 5, id, "exactly once: every copy is answered with PUBREC")
			n += delivered()
		}
		vnd.Assert(n == r+1, "exactly once: a repeated message is delivered once")
		for i := 0; i <= vnd.Choice("releases", 2); i++ {
			w := len(nc.packets())
			nc.feed(ack(6, id, 0)...)
			vnd.Assert(poll(c) == nil, "exactly once: PUBREL is processed")
			acked(nc, w, 7, id, "exactly once: every PUBREL is answered with PUBCOMP")
		}
		vnd.Assert(delivered() == 0, "exactly once: PUBREL delivers nothing")
	}
	vnd.Cover("delivered once")
}

// HSession: a QoS 2 message and the connection it came on, which may be lost
// at any point, and a connection after it that continues the session or not.
func HSession() {
	nc := newConn()
	c := online(nc, &packets.Connect{ReceiveMaximum: 2, SessionExpiryInterval: 100}, rm(2)...)
	if vnd.Choice("storage", 2) == 1 {
		c.SetStorage(&store{})
	}
	ch := c.CreateEventChannel(8)
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	delivered := func() int {
		_, got := events(ch)
		return len(got)
	}
	receive := func(fl byte) {
		w := len(nc.packets())
		nc.feed(publish(fl, "t", id, 1)...)
		vnd.Assert(poll(c) == nil, "session: PUBLISH is processed")
		acked(nc, w, 5, id, "session: every copy is answered with PUBREC")
	}
	release := func() {
		w := len(nc.packets())
		nc.feed(ack(6, id, 0)...)
		vnd.Assert(poll(c) == nil, "session: PUBREL is processed")
		acked(nc, w, 7, id, "session: every PUBREL is answered with PUBCOMP")
	}
	receive(4)
	vnd.Assert(delivered() == 1, "session: a message is delivered once")
	released := vnd.Choice("released", 2) == 1
	if released {
		release()
	}
	out := vnd.Choice("outgoing", 3)
	if out > 0 {
		c.SetRngFn(func() uint32 { return 7 })
		vnd.Assert(c.Publish(ctx2(), message(byte(out))) == nil, "session: message is sent")
	}
	for i := 0; i < 1+vnd.Choice("reconnects", 2); i++ {
		switch vnd.Choice("how", 4) {
		case 0:
			vnd.Assert(c.DisconnectWithSessionExpiry(ctx2(), false, 50) == nil, "session: the client disconnects")
		case 1:
			nc.feed(0xE0, 0)
			poll(c)
		case 2:
			nc.eof = true
			poll(c)
		case 3: // in the middle of the message
			nc.feed(publish(4, "t", id, 1)[:5]...)
			nc.eof = true
			vnd.Assert(poll(c) != nil, "session: the end of the stream is reported")
		}
		nc.reopen()
		session := byte(vnd.Choice("session", 2))
		nc.feed(connack(session, 0, rm(2)...)...)
		vnd.Assert(c.Connect(ctx2(), &packets.Connect{ClientId: "id", KeepAlive: 600, ReceiveMaximum: 2, SessionExpiryInterval: 100}) == nil, "session: the client connects again")
		delivered()
		if session == 0 {
			released, out = true, 0 // nothing of them is known any more
			vnd.Cover("new session")
		} else {
			vnd.Cover("continued session")
			if out > 0 {
				// the identifier of the outgoing message is still in use
				w := len(nc.packets())
				vnd.Assert(c.Publish(ctx2(), message(1)) == nil, "session: message is sent")
				p := nc.since(w)
				vnd.Assert(len(p) == 1 && p[0].typ == 3, "session: message is sent")
				p[0].c.Str()
				x := p[0].c.U16()
				vnd.Assert(x != 7, "session: the identifier of a message that is not acknowledged is not used again")
				nc.feed(ack(4, x, 0)...)
				vnd.Assert(poll(c) == nil, "session: PUBACK is processed")
			}
		}
	}
	delivered()
	fl := byte(4)
	if !released {
		fl = 12
	}
	receive(fl)
	if released {
		vnd.Assert(delivered() == 1, "session: a new message is delivered")
	} else {
		vnd.Assert(delivered() == 0, "session: a message that was delivered before the reconnect is not delivered again")
	}
	release()
	receive(4)
	vnd.Assert(delivered() == 1, "session: a message after the PUBREL is delivered")
}

// HCrossID: the same packet identifier is used in both directions at once.
func HCrossID() {
	nc := newConn()
	c := online(nc, nil, rm(8)...)
	s := &store{}
	c.SetStorage(s)
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	ctx, cancel := within(time.Minute)
	defer cancel()
	q := byte(1 + vnd.Choice("qos", 2))
	p := message(q)
	p.PacketIdentifier = u16(id)
	vnd.Assert(c.Publish(ctx, p) == nil, "cross: message is sent")
	in := byte(1 + vnd.Choice("in", 2))
	nc.feed(publish(in<<1, "x", id)...)
	w := len(nc.packets())
	vnd.Assert(poll(c) == nil, "cross: PUBLISH is processed")
	acked(nc, w, 3+in, id, "cross: the incoming message is acknowledged")
	vnd.Assert(s.has(id, 3), "cross: an incoming message with the same identifier leaves the outgoing one stored")
	if in == 2 {
		w = len(nc.packets())
		nc.feed(ack(6, id, 0)...)
		vnd.Assert(poll(c) == nil, "cross: PUBREL is processed")
		acked(nc, w, 7, id, "cross: PUBREL is answered")
		vnd.Assert(s.has(id, 3), "cross: PUBREL of an incoming message leaves the outgoing one stored")
	}
	vnd.Cover("both directions")
}

// HSlow: packets that arrive in pieces around the time limit of the poll:
// nothing is lost and nothing is processed twice.
func HSlow() {
	nc := newConn()
	c := online(nc, nil)
	ch := c.CreateEventChannel(8)
	id := uint16(3)
	var first []byte
	kind := vnd.Choice("packet", 12)
	if kind == 10 {
		kind = 11 // after DISCONNECT nothing follows
	}
	first = incoming(kind, id)
	second := publish(2, "b", 9, 5)
	all := append(append([]byte{}, first...), second...)
	// the cut part arrives late
	cut := vnd.Choice("cut", len(first))
	unlimited := vnd.Choice("unlimited", 2) == 1
	late := []time.Duration{0, 700 * time.Millisecond, 1400 * time.Millisecond, 40 * time.Second}[vnd.Choice("late", 4)]
	vnd.Assume(unlimited || late < 30*time.Second)
	nc.takes = time.Duration(vnd.Choice("takes", 3)) * 600 * time.Millisecond
	nc.feed(all[:cut]...)
	go func() {
		<-time.After(late + 1)
		nc.feed(all[cut:]...)
	}()
	polls := 0
	end := nc.pos + len(all)
	for nc.pos < end && polls < 6 {
		if unlimited {
			vnd.Assert(c.Poll(context.Background()) == nil, "slow: an incomplete packet is waited for")
		} else {
			vnd.Assert(poll(c) == nil, "slow: an incomplete packet is waited for")
		}
		polls++
	}
	vnd.Assert(nc.pos == end, "slow: the stream is consumed")
	var got []string
	var types []packets.PacketType
	for {
		e, ok := drain(ch)
		if !ok {
			break
		}
		types = append(types, e.PacketType)
		if p, is := e.Data.(*packets.Publish); is {
			got = append(got, string(p.Topic))
		}
	}
	want := 1
	if kind < 3 {
		want = 2
	}
	vnd.Assert(len(got) == want && got[want-1] == "b", "slow: every message is delivered once")
	if kind == 11 {
		want = 1
	} else {
		want = 2
	}
	vnd.Assert(len(types) == want && (want == 1 || byte(types[0]) == first[0]>>4), "slow: every packet is signalled once")
	out := nc.since(1)
	reply := map[int]byte{1: 4, 2: 5, 4: 6, 5: 7}[kind]
	n := 1
	if reply > 0 {
		n = 2
	}
	vnd.Assert(len(out) == n, "slow: every packet is answered once")
	if len(out) == 2 {
		vnd.Assert(out[0].typ == reply && out[0].c.U16() == id, "slow: the first packet is answered")
	}
	vnd.Cover("delivered")
}

// waiting starts calls that wait with no time limit, and returns what they
// end with: a SUBSCRIBE, an UNSUBSCRIBE and a PUBLISH beyond the quota.
func waiting(c *mqtt.Client, n int) chan error {
	ended := make(chan error, n)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			switch i {
			case 0:
				ended <- c.Publish(context.Background(), message(1))
			case 1:
				ended <- c.Subscribe(context.Background(), []mqtt.Topic{filter("w")})
			case 2:
				ended <- c.Unsubscribe(context.Background(), []string{"w"})
			case 3:
				ended <- c.Publish(context.Background(), message(2))
			}
		}()
	}
	return ended
}

// incoming is one packet of each kind a server may send.
func incoming(k int, id uint16) []byte {
	switch k {
	case 0:
		return publish(0, "a", 0, 1, 2)
	case 1:
		return publish(2, "a", id, 1, 2)
	case 2:
		return publish(4, "a", id, 1)
	case 3, 4, 5, 6:
		return ack(byte(1+k), id, 0x10)
	case 7:
		return acks(9, id, 0)
	case 8:
		return acks(11, id, 0, 1)
	case 9:
		return ref.Packet(15, 0, []byte{0x18, 0})
	case 10:
		return ref.Packet(14, 0, ref.AppProps([]byte{0x81}, []ref.Prop{{ID: 0x1F, S: []byte("x")}}))
	case 11:
		return []byte{0xD0, 0}
	}
	return nil
}

// HLost: the connection ends, fails or falls silent at any point of any
// packet, or the packet is malformed or one that a server must not send.
func HLost() {
	nc := newConn()
	c := online(nc, nil, rm(1)...)
	ids(c, 1)
	s := &store{}
	c.SetStorage(s)
	vnd.Assert(c.Publish(ctx2(), message(2)) == nil, "lost: message is sent")
	calls := waiting(c, 4)
	vnd.Settle()
	ch := c.CreateEventChannel(4)
	id := vnd.U16("id") // of the message or one of the two requests, or of something else
	w := len(nc.out)
	switch vnd.Choice("how", 8) {
	case 7: // a message that needs a packet identifier and has none
		nc.feed(publish(byte(1+vnd.Choice("qos", 2))<<1, "a", 0)...)
		vnd.Cover("no identifier")
	case 0:
		pk := incoming(vnd.Choice("packet", 12), id)
		nc.feed(pk[:vnd.Choice("cut", len(pk))]...)
		nc.eof = true
		vnd.Cover("end of the stream")
	case 1:
		pk := incoming(vnd.Choice("packet", 12), id)
		nc.step = 1
		nc.failOp, nc.failAt = opRead, nc.ops[opRead]+1+vnd.Choice("at", len(pk))
		nc.feed(pk...)
		vnd.Cover("failing read")
	case 2:
		pk := incoming(vnd.Choice("packet", 12), id)
		nc.feed(pk[:1+vnd.Choice("cut", len(pk)-1)]...)
		vnd.Cover("silence")
	case 3: // a length that does not fit
		pk := incoming(vnd.Choice("packet", 9), id)
		pk[1] = byte(vnd.Choice("length", 2))
		nc.feed(pk...)
		if pk[0]>>4 == 11 || pk[0]>>4 == 14 || pk[0]>>4 == 15 {
			return
		}
		vnd.Cover("malformed")
	case 4: // properties longer than the packet
		nc.feed(0x32, 6, 0, 1, 'a', 0, 1, 9)
	case 5: // packets a server must not send
		t := []byte{1, 2, 8, 10, 12, 0}[vnd.Choice("type", 6)]
		nc.feed(ref.Packet(t, 0, []byte{0x30, 4, 0, 1, 'a', 0})...)
		vnd.Cover("unexpected")
	case 6:
		nc.failOp, nc.failAt = opDeadline, nc.ops[opDeadline]+1+vnd.Choice("at", 2)
		nc.feed(incoming(1, id)...)
		vnd.Cover("deadline")
	}
	err := poll(c)
	vnd.Assert(err != nil && !errors.Is(err, mqtt.ErrClientNotConnected), "lost: the failure of the connection is reported")
	_, ok := drain(ch)
	vnd.Assert(!ok, "lost: an incomplete packet is not delivered")
	vnd.Assert(len(nc.out) == w, "lost: an incomplete packet is not acknowledged")
	vnd.Assert(s.has(1, 3) && len(s.ids) == 1, "lost: an incomplete packet changes nothing that is stored")
	vnd.Assert(nc.closed, "lost: the connection is closed")
	// nobody waits any longer, and the rest of the packet is not taken for another
	for i := 0; i < 4; i++ {
		vnd.Assert(<-calls != nil, "lost: a call that waits ends with an error")
	}
	nc.failOp = opNone
	nc.feed(publish(2, "late", 9)...)
	usable(c, nc)
	_, ok = drain(ch)
	vnd.Assert(!ok, "lost: nothing is delivered after the end of the connection")
	vnd.Cover("reported")
}

// HTorn: a write fails after any number of bytes. If it was a part of the
// packet, nothing is written behind it and the connection ends.
func HTorn() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	ctx := ctx2()
	k := vnd.Choice("call", 12)
	nc.part = vnd.Choice("part", vnd.Param("part", 14))
	var err error
	if k == 11 {
		nc.failOp, nc.failAt = opWrite, 1
		err = c.Connect(ctx, &packets.Connect{ClientId: "id"})
		vnd.Assert(err != nil, "torn: the failure is reported")
		vnd.Assert(nc.closed == nc.torn || nc.closed, "torn: the connection is closed")
		c.Connect(ctx, &packets.Connect{ClientId: "id"})
		vnd.Cover("CONNECT")
		return
	}
	handshake(c, nc, nil, rm(9)...)
	ids(c, 1)
	if vnd.Choice("storage", 2) == 1 {
		c.SetStorage(&store{})
	}
	ch := c.CreateEventChannel(4)
	nc.failOp, nc.failAt = opWrite, nc.ops[opWrite]+1
	if k < 7 {
		err = operation(k, c)
		vnd.Cover("call")
	} else {
		nc.feed(incoming([]int{1, 2, 4, 5}[k-7], 3)...)
		err = poll(c)
		vnd.Cover("answer")
	}
	vnd.Assert(err != nil, "torn: the failure is reported")
	if !nc.torn {
		// the connection may go on with whole packets
		operation(1, c)
		operation(5, c)
		poll(c)
		vnd.Cover("nothing or everything was written")
		return
	}
	vnd.Cover("a part was written")
	vnd.Assert(nc.closed, "torn: the connection is closed")
	w := len(nc.out)
	switch x := vnd.Choice("next", 8); x {
	case 7:
		nc.feed(publish(2, "b", 9)...)
	default:
		vnd.Assert(operation(x, c) != nil, "torn: a call on the broken connection fails")
	}
	vnd.Assert(poll(c) != nil, "torn: the end of the connection is reported")
	vnd.Assert(len(nc.out) == w, "torn: nothing is written behind a part of a packet")
	_ = ch
	usable(c, nc)
}

// HWaiting: calls that wait without a time limit end when the connection does,
// however it ends and whenever they started.
func HWaiting() {
	vnd.Races()
	nc := newConn()
	c := online(nc, &packets.Connect{KeepAlive: 10, ReceiveMaximum: 1}, rm(1)...)
	ids(c, 1)
	vnd.Assert(c.Publish(ctx2(), message(2)) == nil, "waiting: message is sent")
	n := vnd.Param("calls", 3)
	how := vnd.Choice("how", 7)
	vnd.Explore(vnd.Param("preempt", 1))
	calls := waiting(c, n)
	if how == 6 {
		nc.failOp, nc.failAt = opClose, nc.ops[opClose]+1
		how = vnd.Choice("closing fails", 3)
	}
	switch how {
	case 0:
		vnd.Assert((c.Disconnect(ctx2(), false) == nil) == (nc.failOp == opNone), "waiting: the client disconnects")
	case 1:
		nc.feed(0xE0, 0)
		poll(c)
	case 2:
		vnd.Advance(21 * time.Second)
		vnd.Assert(poll(c) != nil, "waiting: the timeout is reported")
	case 3:
		nc.eof = true
		vnd.Assert(poll(c) != nil, "waiting: the end of the stream is reported")
	case 4:
		nc.feed(publish(4, "a", 1)...)
		nc.feed(publish(2, "a", 2)...)
		poll(c)
		vnd.Assert(poll(c) != nil, "waiting: too many messages are reported")
	case 5:
		nc.feed(0x32, 1, 0)
		vnd.Assert(poll(c) != nil, "waiting: a malformed packet is reported")
	}
	for i := 0; i < n; i++ {
		vnd.Assert(errors.Is(<-calls, mqtt.ErrClientNotConnected), "waiting: the call ends because the client is not connected any more")
	}
	vnd.Assert(!c.IsConnected(), "waiting: the client is not connected")
	// they leave nothing behind for the next connection
	nc.failOp = opNone
	nc.reopen()
	connectWith(c, nc, &packets.Connect{ClientId: "id", KeepAlive: 10}, rm(2)...)
	vnd.Assert(c.Publish(ctx2(), message(1)) == nil && c.Publish(ctx2(), message(1)) == nil, "waiting: the next connection is not affected")
	subscribe(c, nc, []mqtt.Topic{filter("a")}, 0)
	vnd.Cover("ended")
}

// HLateAnswer: the answer of a request whose call ended comes later, while
// others wait. The random source gives the same identifiers again.
func HLateAnswer() {
	nc := newConn()
	c := online(nc, nil, rm(9)...)
	first := vnd.U32("rng")
	c.SetRngFn(func() uint32 { return first })
	ask := func(k int, d time.Duration) chan error {
		done := make(chan error, 1)
		go func() {
			ctx, cancel := within(d)
			defer cancel()
			if k == 0 {
				done <- c.Subscribe(ctx, []mqtt.Topic{filter("a")})
			} else {
				done <- c.Unsubscribe(ctx, []string{"a"})
			}
		}()
		vnd.Settle()
		return done
	}
	id := func(n int) uint16 {
		out := nc.packets()
		return out[n].c.U16()
	}
	a := vnd.Choice("first", 2)
	gone := ask(a, time.Second)
	vnd.Advance(2 * time.Second)
	vnd.Assert(<-gone != nil, "late: a request without an answer ends with its context")
	b := vnd.Choice("second", 2)
	wait := ask(b, time.Hour)
	old, id2 := id(1), id(2)
	vnd.Assert(old != id2, "late: the identifier of a request is not used again before its answer")
	// the answer to the first refuses it
	code := vnd.Byte("code")
	answers := [][]byte{acks(byte(9+2*a), old, 0x80), acks(byte(9+2*b), id2, code)}
	if vnd.Choice("order", 2) == 1 {
		answers[0], answers[1] = answers[1], answers[0]
	}
	for _, x := range answers {
		nc.feed(x...)
		vnd.Assert(poll(c) == nil, "late: the answer is processed")
	}
	err := <-wait
	vnd.Assert((err == nil) == (code < 0x80), "late: the request gets its own answer")
	// after that the identifiers can be used again
	last := ask(0, time.Hour)
	nc.feed(acks(9, id(3), 0)...)
	vnd.Assert(poll(c) == nil, "late: the answer is processed")
	vnd.Assert(<-last == nil, "late: the next request is answered")
	vnd.Cover("answered")
}

// HReceiveDefault: a client that gave no Receive Maximum, or a large one, takes
// that many QoS 2 messages that are not released, and knows each of them again.
func HReceiveDefault() {
	nc := newConn()
	n := vnd.Param("messages", 1000)
	var p *packets.Connect
	limited := vnd.Choice("maximum", 2) == 1
	if limited {
		n = 1000
		p = &packets.Connect{ReceiveMaximum: u16(uint16(n))}
	}
	c := online(nc, p)
	ch := c.CreateEventChannel(2)
	arrives := func(fl byte, id int) int {
		nc.in, nc.pos, nc.out = nil, 0, nil
		nc.feed(publish(fl, "t", uint16(id))...)
		vnd.Assert(poll(c) == nil, "receive: a message within the receive maximum is processed")
		acked(nc, 0, 5, uint16(id), "receive: a message within the receive maximum is acknowledged")
		_, ok := drain(ch)
		if !ok {
			return 0
		}
		return 1
	}
	for id := 1; id <= n; id++ {
		got := arrives(4, id)
		vnd.Assert(got == 1, "receive: a message within the receive maximum is delivered")
		if got != 1 {
			return
		}
	}
	vnd.Cover("received")
	for _, at := range []int{1, n / 2, n} {
		vnd.Assert(arrives(12, at) == 0, "exactly once: a repeated message is delivered once")
		nc.in, nc.pos, nc.out = nil, 0, nil
		nc.feed(ack(6, uint16(at), 0)...)
		vnd.Assert(poll(c) == nil, "receive: PUBREL is processed")
		acked(nc, 0, 7, uint16(at), "exactly once: every PUBREL is answered with PUBCOMP")
		drain(ch)
		vnd.Assert(arrives(4, at) == 1, "exactly once: after the PUBREL the identifier stands for a new message")
	}
	if limited {
		nc.in, nc.pos, nc.out = nil, 0, nil
		nc.feed(publish(4, "t", uint16(n+1))...)
		vnd.Assert(poll(c) != nil, "receive: exceeding the Receive Maximum is reported")
		out := nc.packets()
		vnd.Assert(len(out) == 1 && out[0].typ == 14 && out[0].c.Byte() == 0x93, "receive: exactly a DISCONNECT answers a message beyond the Receive Maximum")
		vnd.Cover("beyond")
	}
}
