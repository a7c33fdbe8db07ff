package client

import (
	"context"
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// limit gives a context of the k-th kind: without a deadline, with one soon,
// with one far away.
func limit(k int) (context.Context, context.CancelFunc) {
	switch k {
	case 1:
		return within(2 * time.Second)
	case 2:
		return within(time.Hour)
	}
	return context.WithCancel(context.Background())
}

// under runs the k-th kind of call that writes a packet and takes a context.
func under(ctx context.Context, k int, c *mqtt.Client) error {
	switch k {
	case 0, 1, 2:
		return c.Publish(ctx, message(byte(k)))
	case 3:
		return c.Subscribe(ctx, []mqtt.Topic{filter("t")})
	case 4:
		return c.Unsubscribe(ctx, []string{"t"})
	case 5:
		return c.Disconnect(ctx, false)
	case 6:
		return c.DisconnectWithSessionExpiry(ctx, true, 7)
	case 7:
		return c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 600})
	}
	return c.KeepAlive()
}

// answering makes the server answer requests and handshakes.
func answering(nc *conn) {
	nc.onWrite = func(b []byte) {
		switch b[0] >> 4 {
		case 1:
			nc.feed(connack(0, 0, rm(9)...)...)
		case 8:
			nc.feed(acks(9, uint16(b[2])<<8|uint16(b[3]), 0)...)
		case 10:
			nc.feed(acks(11, uint16(b[2])<<8|uint16(b[3]), 0)...)
		}
	}
}

// away makes the server end the connection, so that the client can connect
// again.
func away(c *mqtt.Client, nc *conn) {
	nc.feed(0xE0, 0)
	vnd.Assert(poll(c) == nil, "deadline: DISCONNECT is accepted")
	nc.reopen()
}

// HDeadline: whatever was called before, and however long ago, a call writes
// its packet under the deadline of its own context.
func HDeadline() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	answering(nc)
	nc.loose = true
	ctx, cancel := limit(vnd.Choice("first limit", 3))
	vnd.Assert(under(ctx, 7, c) == nil, "handshake: a successful CONNACK connects")
	cancel()
	ids(c, 1)

	ctx, cancel = limit(vnd.Choice("earlier limit", 3))
	switch vnd.Choice("earlier", 5) {
	case 1:
		vnd.Assert(c.KeepAlive() == nil, "deadline: the earlier call succeeds")
	case 2:
		vnd.Assert(under(ctx, 1, c) == nil, "deadline: the earlier call succeeds")
	case 3:
		nc.feed(publish(2, "a", 3)...)
		vnd.Assert(c.Poll(ctx) == nil, "deadline: the earlier call succeeds")
	case 4:
		nc.feed(0xD0, 0)
		vnd.Assert(poll(c) == nil, "deadline: the earlier call succeeds")
	}
	cancel()
	d := vnd.I64("idle")
	vnd.Assume(vnd.And(d >= 0, d < int64(1000*time.Second)))
	vnd.Advance(time.Duration(d))

	k := vnd.Choice("call", 9)
	if k == 7 {
		away(c, nc)
	}
	ctx, cancel = limit(vnd.Choice("limit", 3))
	defer cancel()
	written := 0
	answer := nc.onWrite
	nc.onWrite = func(b []byte) {
		written++
		if k == 8 {
			vnd.Assert(!nc.deadline.IsZero() && nc.deadline.Sub(time.Now()) <= 900*time.Second, "deadline: a ping is limited to one and a half intervals")
		} else if want, ok := ctx.Deadline(); ok {
			vnd.Assert(nc.deadline.Equal(want), "deadline: a packet is written under the deadline of its context")
			vnd.Cover("limited")
		} else {
			vnd.Assert(nc.deadline.IsZero(), "deadline: a packet is written without a deadline if its context has none")
			vnd.Cover("not limited")
		}
		answer(b)
	}
	done := make(chan error, 1)
	go func() { done <- under(ctx, k, c) }()
	vnd.Settle()
	if k == 3 || k == 4 {
		vnd.Assert(poll(c) == nil, "deadline: the answer is accepted")
	}
	vnd.Assert(<-done == nil, "deadline: the call succeeds")
	vnd.Assert(written == 1, "deadline: one packet is written")
}

// HStuck: the connection takes nothing. A call with a deadline ends with an
// error when it is reached and not later, and what is called afterwards works.
func HStuck() {
	nc := newConn()
	k := vnd.Choice("call", 9)
	c := mqtt.NewClient(nc)
	nc.loose = true
	answering(nc)
	if k != 7 {
		ctx, cancel := limit(vnd.Choice("first limit", 3))
		vnd.Assert(under(ctx, 7, c) == nil, "handshake: a successful CONNACK connects")
		cancel()
	}
	ids(c, 1)
	storage := vnd.Choice("storage", 2) == 1
	if storage {
		c.SetStorage(&store{})
	}
	d := vnd.I64("idle")
	vnd.Assume(vnd.And(d >= 0, d < int64(1000*time.Second)))
	vnd.Advance(time.Duration(d))
	nc.full = true
	ctx, cancel := limit(1 + vnd.Choice("limit", 2))
	start := time.Now()
	want, _ := ctx.Deadline()
	err := under(ctx, k, c)
	cancel()
	vnd.Assert(err != nil, "stuck: a call whose packet is not written reports it")
	if k == 8 {
		vnd.Assert(!time.Now().After(start.Add(900*time.Second)), "stuck: a ping ends within one and a half intervals")
	} else {
		vnd.Assert(!time.Now().After(want), "stuck: a call ends at its deadline")
	}
	vnd.Assert(len(nc.out) == 1 || k == 7 && len(nc.out) == 0, "stuck: nothing is written")
	nc.full = false
	if nc.closed {
		vnd.Cover("closed")
		return
	}
	if !c.IsConnected() {
		vnd.Assert(k == 7, "stuck: a connection on which nothing was written remains")
		ctx, cancel = limit(vnd.Choice("next limit", 3))
		vnd.Assert(under(ctx, 7, c) == nil, "stuck: a handshake succeeds afterwards")
		cancel()
		vnd.Cover("connected later")
		return
	}
	ctx, cancel = limit(vnd.Choice("next limit", 3))
	next := vnd.Choice("next", 3)
	vnd.Assert(under(ctx, next, c) == nil, "stuck: a message is published afterwards")
	cancel()
	vnd.Assert(len(nc.since(1)) == 1, "stuck: the message is written")
	vnd.Cover("written later")
}

// HDeadlines: calls at once, each with its own deadline, while a goroutine
// polls with another. No packet is written under the deadline of another call.
func HDeadlines() {
	nc := newConn()
	c := online(nc, nil, rm(9)...)
	ids(c, 1)
	answering(nc)
	nc.points = true
	x := vnd.Choice("first", 5)
	y := x + vnd.Choice("second", 5-x)
	if vnd.Choice("ping", 2) == 1 {
		y = 8
	}
	last := map[byte][]time.Time{}
	answer := nc.onWrite
	nc.onWrite = func(b []byte) {
		t := b[0] >> 4
		last[t] = append(last[t], nc.deadline)
		answer(b)
	}
	if vnd.Choice("message", 2) == 1 {
		nc.feed(publish(2, "a", 3)...)
	}
	want := map[byte][]time.Time{}
	done := make(chan bool, 3)
	vnd.Explore(vnd.Param("preempt", 0))
	for i, k := range []int{x, y} {
		k := k
		ctx, cancel := limit(i * 2)
		defer cancel()
		t, _ := ctx.Deadline()
		typ := []byte{3, 3, 3, 8, 10, 14, 14, 1, 12}[k]
		want[typ] = append(want[typ], t)
		go func() {
			vnd.Assert(under(ctx, k, c) == nil, "threads: the call succeeds")
			done <- true
		}()
	}
	ended := make(chan bool)
	go func() {
		for i := 0; i < 2 || nc.pos < len(nc.in) || len(done) < 2; i++ {
			start := time.Now()
			vnd.Assert(poll(c) == nil, "threads: polling succeeds")
			vnd.Assert(!time.Now().After(start.Add(time.Second)), "deadline: a poll waits no longer than its context")
			vnd.Yield()
		}
		close(ended)
	}()
	<-ended
	for t, ds := range want {
		vnd.Assert(len(last[t]) == len(ds), "deadline: each packet is written once")
		for _, d := range ds {
			found := 0
			for _, l := range last[t] {
				if t == 12 {
					if !l.IsZero() && l.Sub(time.Now()) <= 900*time.Second && l.Sub(time.Now()) > 800*time.Second {
						found++
					}
				} else if l.Equal(d) {
					found++
				}
			}
			vnd.Assert(found > 0, "deadline: a packet is written under the deadline of its own call")
		}
	}
	vnd.Cover("ended")
}

// HPollLimit: a poll returns without an error when nothing has come by the
// deadline of its context, whatever limits earlier calls had; a poll without a
// deadline waits until a packet comes.
func HPollLimit() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	answering(nc)
	nc.loose = true
	ctx, cancel := limit(vnd.Choice("first limit", 3))
	vnd.Assert(under(ctx, 7, c) == nil, "handshake: a successful CONNACK connects")
	cancel()
	ids(c, 1)
	ctx, cancel = limit(vnd.Choice("earlier limit", 3))
	switch vnd.Choice("earlier", 4) {
	case 1:
		c.KeepAlive()
	case 2:
		under(ctx, 1, c)
	case 3:
		nc.feed(publish(2, "a", 3)...)
		vnd.Assert(c.Poll(ctx) == nil, "deadline: the earlier call succeeds")
	}
	cancel()
	d := vnd.I64("idle")
	vnd.Assume(vnd.And(d >= 0, d < int64(1000*time.Second)))
	vnd.Advance(time.Duration(d))
	k := vnd.Choice("limit", 3)
	if k == 2 { // within the keep alive time
		k = 1
		nc.feed(0xD0, 0)
		vnd.Assert(poll(c) == nil, "deadline: PINGRESP is accepted")
	}
	ctx, cancel = limit(k)
	defer cancel()
	if want, ok := ctx.Deadline(); ok {
		vnd.Assert(c.Poll(ctx) == nil, "deadline: a poll for which nothing comes succeeds")
		vnd.Assert(time.Now().Equal(want), "deadline: a poll waits until its deadline and no longer")
		vnd.Assert(c.IsConnected() && !nc.closed, "deadline: the connection stays")
		vnd.Cover("nothing came")
	}
	late := vnd.I64("late")
	vnd.Assume(vnd.And(late >= 0, late < int64(100*time.Second)))
	ch := c.CreateEventChannel(1)
	ctx, cancel2 := limit(0)
	defer cancel2()
	done := make(chan error, 1)
	go func() { done <- c.Poll(ctx) }()
	vnd.Settle()
	vnd.Assert(len(done) == 0, "deadline: a poll without a deadline waits")
	vnd.Advance(time.Duration(late))
	nc.feed(ref.Packet(15, 0, []byte{0, 0})...)
	vnd.Assert(<-done == nil, "deadline: a poll without a deadline takes the packet that comes")
	e, ok := drain(ch)
	vnd.Assert(ok && e.PacketType == packets.AUTH, "deadline: the packet is signalled")
	vnd.Cover("waited")
}
