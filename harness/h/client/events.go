package client

import (
	"context"
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// HEvents: every packet the server may send is signalled, with its contents,
// on every open general channel.
func HEvents() {
	nc := newConn()
	c := online(nc, nil, rm(8)...)
	a := c.CreateEventChannel(2)
	b := c.CreateEventChannel(2)
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	code := vnd.Byte("code")
	vnd.Assume(code < 0x80)
	payload := vnd.Bytes("payload", vnd.Choice("len", 3))
	topic := vnd.Bytes("topic", 1+vnd.Choice("len.topic", 2))
	for _, x := range topic {
		vnd.Assume(vnd.And(x != 0, vnd.And(x < 0x80, vnd.And(x != '+', x != '#'))))
	}
	kind := vnd.Choice("packet", 11)
	want := packets.PacketType(0)
	fl := byte(0)
	switch kind {
	case 0, 1, 2:
		fl = byte(kind)<<1 | byte(vnd.Choice("retain", 2))
		nc.feed(publish(fl, string(topic), id, payload...)...)
		want = packets.PUBLISH
	case 3, 4, 5, 6:
		nc.feed(ack(byte(kind)+1, id, code)...)
		want = packets.PacketType(kind + 1)
	case 7:
		nc.feed(acks(9, id, code)...)
		want = packets.SUBACK
	case 8:
		nc.feed(acks(11, id, code)...)
		want = packets.UNSUBACK
	case 9:
		nc.feed(ref.Packet(14, 0, []byte{code})...)
		want = packets.DISCONNECT
	case 10:
		nc.feed(ref.Packet(15, 0, []byte{0x18, 0})...)
		want = packets.AUTH
	}
	vnd.Assert(poll(c) == nil, "events: packet is processed")
	for i, ch := range []mqtt.EventChannel{a, b} {
		e, ok := drain(ch)
		vnd.Assert(ok && e.PacketType == want, "events: the packet is signalled on every general channel")
		if !ok {
			return
		}
		good := false
		switch p := e.Data.(type) {
		case *packets.Publish:
			good = kind <= 2 && vnd.And(vnd.And(vnd.EqBytes([]byte(p.Topic), topic), vnd.EqBytes(p.Payload, payload)),
				vnd.And(byte(p.QoS) == fl>>1, vnd.And(bool(p.Retain) == (fl&1 == 1), kind == 0 || uint16(p.PacketIdentifier) == id)))
		case *packets.Puback:
			good = kind == 3 && vnd.And(uint16(p.PacketIdentifier) == id, byte(p.ReasonCode) == code)
		case *packets.Pubrec:
			good = kind == 4 && vnd.And(uint16(p.PacketIdentifier) == id, byte(p.ReasonCode) == code)
		case *packets.Pubrel:
			good = kind == 5 && vnd.And(uint16(p.PacketIdentifier) == id, byte(p.ReasonCode) == code)
		case *packets.Pubcomp:
			good = kind == 6 && vnd.And(uint16(p.PacketIdentifier) == id, byte(p.ReasonCode) == code)
		case *packets.Suback:
			good = kind == 7 && vnd.And(uint16(p.PacketIdentifier) == id, len(p.ReasonCodes) == 1 && byte(p.ReasonCodes[0]) == code)
		case *packets.Unsuback:
			good = kind == 8 && vnd.And(uint16(p.PacketIdentifier) == id, len(p.ReasonCodes) == 1 && byte(p.ReasonCodes[0]) == code)
		case *packets.Disconnect:
			good = kind == 9 && byte(p.ReasonCode) == code
		case *packets.Auth:
			good = kind == 10 && p.AuthenticateReasonCode == 0x18
		}
		vnd.Assert(good, "events: the event carries the packet")
		_, more := drain(ch)
		vnd.Assert(!more, "events: the packet is signalled once")
		if i == 1 {
			vnd.Cover("signalled")
		}
	}
}

// HRouting: messages reach the channels of the filters they match and the
// general channels, and no others.
func HRouting() {
	nc := newConn()
	c := online(nc, nil)
	n := vnd.Param("flen", 3)
	f1 := vnd.Bytes("f1", 1+vnd.Choice("len.f1", n))
	vnd.Assume(validFilter(f1))
	f2 := []byte("b")
	for _, x := range f1 {
		vnd.Assume(x < 0x80)
	}
	vnd.Assume(vnd.Not(vnd.EqBytes(f1, f2)))
	general := c.CreateEventChannel(4)
	a := c.CreateEventChannel(4)
	b := c.CreateEventChannel(4)
	same := vnd.Choice("same", 2) == 1 // both filters on one channel
	if same {
		b = a
	}
	if vnd.Choice("at once", 2) == 1 {
		subscribe(c, nc, []mqtt.Topic{bound(string(f1), a), bound(string(f2), b)}, 0, 0)
	} else {
		subscribe(c, nc, []mqtt.Topic{bound(string(f1), a)}, 0)
		subscribe(c, nc, []mqtt.Topic{bound(string(f2), b)}, 0)
	}
	empty(general, a, b)
	t := vnd.Bytes("topic", 1+vnd.Choice("len.topic", vnd.Param("tlen", 2)))
	vnd.Assume(validTopic(t))
	for _, x := range t {
		vnd.Assume(x < 0x80)
	}
	nc.feed(publish(0, string(t), 0, 1)...)
	vnd.Assert(poll(c) == nil, "routing: message is processed")
	m1, m2 := matches(f1, t), matches(f2, t)
	check := func(ch mqtt.EventChannel, want bool, yes, no string) {
		e, ok := drain(ch)
		if ok {
			p, is := e.Data.(*packets.Publish)
			vnd.Assert(is && vnd.EqBytes([]byte(p.Topic), t), "routing: the event carries the message")
			vnd.Assert(want, no)
		} else {
			vnd.Assert(vnd.Not(want), yes)
		}
	}
	if same {
		check(a, vnd.Or(m1, m2), "routing: a message reaches the channel of a filter it matches", "routing: a message does not reach the channel of a filter it does not match")
	} else {
		check(a, m1, "routing: a message reaches the channel of a filter it matches", "routing: a message does not reach the channel of a filter it does not match")
		check(b, m2, "routing: a message reaches the channel of a filter it matches", "routing: a message does not reach the channel of a filter it does not match")
	}
	e, ok := drain(general)
	vnd.Assert(ok && e.PacketType == packets.PUBLISH, "routing: every message reaches the general channels")
	_, more := drain(general)
	vnd.Assert(!more, "routing: a message reaches a general channel once")
	// channels bound to a filter get nothing else
	nc.feed(ack(4, 1, 0)...)
	vnd.Assert(poll(c) == nil, "routing: PUBACK is processed")
	for {
		e, ok := drain(a)
		if !ok {
			break
		}
		vnd.Assert(e.PacketType == packets.PUBLISH, "routing: a channel bound to a filter gets messages only")
	}
	vnd.Cover("routed")
}

// HChannels: the life of event channels.
func HChannels() {
	nc := newConn()
	c := online(nc, nil)
	n := vnd.Param("channels", 3)
	var chs []mqtt.EventChannel
	var size, held []int
	var open []bool
	total := 0
	steps := vnd.Param("steps", 5)
	for i := 0; i < steps; i++ {
		k := vnd.Choice("action", 3)
		switch {
		case k == 0 && len(chs) < n:
			z := vnd.Choice("size", 4) - 1
			chs = append(chs, c.CreateEventChannel(z))
			if z < 1 {
				z = 1
			}
			size, held, open = append(size, z), append(held, 0), append(open, true)
		case k == 1 && len(chs) > 0: // close one, perhaps again
			j := vnd.Choice("which", len(chs))
			c.CloseEventChannel(chs[j])
			open[j] = false
		case k == 2:
			total++
			nc.feed(ack(4, uint16(total), 0)...)
			vnd.Assert(poll(c) == nil, "channels: packet is processed")
			for j := range chs {
				if open[j] && held[j] < size[j] {
					held[j]++
				}
			}
		default:
			return
		}
	}
	for j, ch := range chs {
		got := 0
		last := uint16(0)
		closed := false
		for {
			stop := false
			select {
			case e, ok := <-ch.C:
				if !ok {
					closed = true
					stop = true
					break
				}
				p, is := e.Data.(*packets.Puback)
				vnd.Assert(is && uint16(p.PacketIdentifier) > last, "channels: events are in order and not repeated")
				if is {
					last = uint16(p.PacketIdentifier)
				}
				got++
			default:
				stop = true
			}
			if stop {
				break
			}
		}
		vnd.Assert(got == held[j], "channels: events signalled while the channel is open and has room, and no others, are held")
		vnd.Assert(closed == !open[j], "channels: the channel is closed by the client exactly when asked")
		done := false
		select {
		case <-ch.Done:
			done = true
		default:
		}
		vnd.Assert(done == !open[j], "channels: the end of a channel is signalled exactly when it is closed")
		if done {
			select {
			case <-ch.Done:
			default:
				vnd.Assert(false, "channels: the end of a channel is signalled to all that wait for it")
			}
		}
		vnd.Cover("channel")
	}
}

// HChannelsLive: channels are closed while events are signalled.
func HChannelsLive() {
	vnd.Races()
	nc := newConn()
	c := online(nc, nil)
	keep := c.CreateEventChannel(4)
	gone := c.CreateEventChannel(1)
	bind := vnd.Choice("bound", 2) == 1
	if bind {
		subscribe(c, nc, []mqtt.Topic{bound("t", gone)}, 0)
	}
	for {
		if _, ok := drain(keep); !ok {
			break
		}
	}
	nc.feed(publish(0, "t", 0, 1)...)
	nc.feed(publish(0, "t", 0, 2)...)
	done := make(chan bool, 4)
	vnd.Explore(vnd.Param("preempt", 2))
	go func() {
		poll(c)
		poll(c)
		done <- true
	}()
	how := vnd.Choice("how", 3)
	go func() {
		switch how {
		case 0:
			c.CloseEventChannel(gone)
		case 1:
			c.CloseEventChannel(gone)
			c.CloseEventChannel(gone)
		case 2:
			c.CloseEventChannel(gone)
			c.CreateEventChannel(1)
		}
		done <- true
	}()
	<-done
	<-done
	n := 0
	for {
		if _, ok := drain(keep); !ok {
			break
		}
		n++
	}
	vnd.Assert(n == 2, "channels: closing one channel does not disturb another")
	vnd.Cover("closed")
}

// HBindings: a history of subscribing, unsubscribing, closing and messages,
// with channels that are bound to any number of filters.
func HBindings() {
	nc := newConn()
	c := online(nc, nil)
	ids(c, 1)
	general := c.CreateEventChannel(8)
	chs := []mqtt.EventChannel{c.CreateEventChannel(8), c.CreateEventChannel(8)}
	open, was := []bool{true, true}, []bool{false, false}
	filters := []string{"a", "b", "+"}
	to := []int{-1, -1, -1}
	bind := func(f, j int) {
		subscribe(c, nc, []mqtt.Topic{bound(filters[f], chs[j])}, 0)
		if open[j] {
			to[f], was[j] = j, true
		}
	}
	closed := func(j int) {
		open[j] = false
		for f := range to {
			if to[f] == j {
				to[f] = -1
			}
		}
	}
	for f := range filters {
		if j := vnd.Choice("bind", 3); j < 2 {
			bind(f, j)
		}
	}
	for i, n := 0, vnd.Param("steps", 2); i < n; i++ {
		switch vnd.Choice("step", 3) {
		case 0:
			j := vnd.Choice("close", 2)
			c.CloseEventChannel(chs[j])
			closed(j)
		case 1:
			f := vnd.Choice("unsubscribe", 3)
			err := request(c, nc, 11, []byte{0}, func(ctx context.Context) error { return c.Unsubscribe(ctx, filters[f:f+1]) })
			vnd.Assert(err == nil, "bindings: a granted unsubscription is reported")
			if to[f] >= 0 {
				closed(to[f])
			}
		case 2:
			bind(vnd.Choice("filter", 3), vnd.Choice("channel", 2))
		}
		empty(append(chs, general)...)
		for k, t := range []string{"a", "b", "c"} {
			nc.feed(publish(0, t, 0, byte(k))...)
			vnd.Assert(poll(c) == nil, "bindings: a message is received")
			for j, ch := range chs {
				if !was[j] && open[j] {
					continue // a general channel so far
				}
				want := false
				for f, x := range filters {
					want = want || to[f] == j && (x == "+" || x == t)
				}
				e, ok := drain(ch)
				vnd.Assert(ok == want, "bindings: a message reaches exactly the channels bound to filters it matches")
				if ok {
					p, is := e.Data.(*packets.Publish)
					vnd.Assert(is && string(p.Topic) == t, "bindings: the event carries the message")
				}
				select {
				case <-ch.Done:
					vnd.Assert(!open[j], "bindings: the end of a channel is signalled when it is closed")
				default:
				}
				empty(ch)
			}
			_, ok := drain(general)
			vnd.Assert(ok, "bindings: every message reaches the general channels")
		}
	}
	vnd.Cover("done")
}

// empty takes all events that are held.
func empty(chs ...mqtt.EventChannel) {
	for _, ch := range chs {
		for {
			if _, ok := drain(ch); !ok {
				break
			}
		}
	}
}

func bound(f string, ch mqtt.EventChannel) mqtt.Topic {
	t := filter(f)
	t.SetEventChannel(ch)
	return t
}

// subscribe has the server grant a subscription.
func subscribe(c *mqtt.Client, nc *conn, ts []mqtt.Topic, codes ...byte) {
	err := request(c, nc, 9, codes, func(ctx context.Context) error { return c.Subscribe(ctx, ts) })
	vnd.Assert(err == nil, "subscribe: a granted subscription is reported")
	vnd.Assume(err == nil)
}

// request runs a SUBSCRIBE or UNSUBSCRIBE while the server answers it with the
// codes and the client polls.
func request(c *mqtt.Client, nc *conn, typ byte, codes []byte, f func(context.Context) error) error {
	old := nc.onWrite
	nc.onWrite = func(b []byte) {
		if b[0]>>4 == typ-1 {
			nc.feed(acks(typ, uint16(b[2])<<8|uint16(b[3]), codes...)...)
		}
	}
	ctx, cancel := within(time.Minute)
	defer cancel()
	done := make(chan error, 1)
	go func() { done <- f(ctx) }()
	vnd.Settle()
	if nc.pos < len(nc.in) {
		vnd.Assert(poll(c) == nil, "request: the answer is processed")
	}
	err := <-done
	nc.onWrite = old
	return err
}
