package client

import (
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// HAlive: polling at any time after the handshake and after a PINGRESP.
func HAlive() {
	nc := newConn()
	var ka, ska uint16
	var ps []ref.Prop
	given := vnd.Choice("given", 2) == 1
	if vnd.Param("any", 0) == 1 {
		w := uint16(vnd.Param("below", 8))
		ka, ska = vnd.U16("keepalive"), vnd.U16("server")
		vnd.Assume(vnd.And(ka < w, ska < w))
	} else {
		// intervals of interest, and whatever time passes
		some := []uint16{0, 1, 2, 60, 18000, 32768, 65535}
		ka = some[vnd.Choice("keepalive", len(some))]
		if given {
			ska = some[vnd.Choice("server", len(some))]
		}
	}
	if given {
		vnd.Assume(ska != 0)
		ps = []ref.Prop{{ID: 0x13, Num: uint32(ska)}}
	}
	c := mqtt.NewClient(nc)
	connectWith(c, nc, &packets.Connect{ClientId: "id", KeepAlive: u16(ka)}, ps...)
	s := ka
	if len(ps) > 0 {
		s = ska
	}
	interval := int64(s) * int64(time.Second)
	vnd.Assert(int64(c.KeepAliveInterval()) == interval, "keep alive: interval")
	pings := vnd.Choice("pings", vnd.Param("pings", 2)+1)
	base := vnd.Now()
	for i := 0; i < pings; i++ {
		d := vnd.I64("wait")
		vnd.Assume(vnd.And(d >= 0, d < 1<<48))
		vnd.Assume(vnd.Or(s == 0, base+2*interval-vnd.Now() > d))
		vnd.Advance(time.Duration(d))
		nc.feed(0xD0, 0)
		vnd.Assert(poll(c) == nil, "keep alive: PINGRESP in time is accepted")
		base = vnd.Now()
	}
	d := vnd.I64("idle")
	vnd.Assume(vnd.And(d >= 0, d < 1<<48))
	vnd.Advance(time.Duration(d))
	late := vnd.And(s != 0, vnd.Now()-base > 2*interval)
	other := vnd.Choice("traffic", 2) == 1
	if other {
		nc.feed(publish(0, "a", 0)...)
	}
	err := poll(c)
	if late {
		vnd.Assert(err != nil, "keep alive: no PINGRESP for twice the interval is reported")
		rc, ok := err.(mqtt.ReasonCode)
		vnd.Assert(ok && rc == 0x8D, "keep alive: the reason is a keep alive timeout")
		vnd.Assert(nc.closed, "keep alive: the connection is closed")
		vnd.Assert(!c.IsConnected(), "keep alive: the client is not connected")
		vnd.Cover("timeout")
		return
	}
	vnd.Assert(err == nil, "keep alive: no timeout before twice the interval")
	vnd.Assert(!nc.closed && c.IsConnected(), "keep alive: the connection stays")
	if s == 0 {
		vnd.Cover("off")
	} else {
		vnd.Cover("in time")
	}
}

// connectWith is handshake without defaults.
func connectWith(c *mqtt.Client, nc *conn, p *packets.Connect, ps ...ref.Prop) {
	nc.feed(connack(0, 0, ps...)...)
	ctx, cancel := within(time.Minute)
	defer cancel()
	err := c.Connect(ctx, p)
	vnd.Assert(err == nil, "handshake: a successful CONNACK connects")
	vnd.Assume(err == nil)
}

// HInterval: the interval for every keep alive the client may ask for and
// every one the server may impose.
func HInterval() {
	nc := newConn()
	ka, ska := vnd.U16("keepalive"), vnd.U16("server")
	vnd.Assume(ska != 0)
	var ps []ref.Prop
	want := ka
	if vnd.Choice("given", 2) == 1 {
		ps = []ref.Prop{{ID: 0x13, Num: uint32(ska)}}
		want = ska
	}
	c := mqtt.NewClient(nc)
	connectWith(c, nc, &packets.Connect{ClientId: "id", KeepAlive: u16(ka)}, ps...)
	vnd.Assert(int64(c.KeepAliveInterval()) == int64(want)*int64(time.Second), "keep alive: interval")
	vnd.Cover("interval")
}

// HPing: each KeepAlive call writes one PINGREQ.
func HPing() {
	nc := newConn()
	ka := []uint16{0, 1, 2, 3, 60, 65535}[vnd.Choice("keepalive", 6)]
	c := mqtt.NewClient(nc)
	connectWith(c, nc, &packets.Connect{ClientId: "id", KeepAlive: u16(ka)})
	n := 1 + vnd.Choice("calls", 3)
	for i := 0; i < n; i++ {
		vnd.Assert(c.KeepAlive() == nil, "keep alive: PINGREQ is sent")
		out := nc.since(1 + i)
		vnd.Assert(len(out) == 1 && out[0].typ == 12 && out[0].flags == 0 && out[0].c.Left() == 0, "keep alive: exactly one PINGREQ is written")
		if ka == 0 {
			vnd.Assert(nc.deadline.IsZero(), "keep alive: no time limit without an interval")
		} else {
			d := nc.deadline.Sub(time.Now())
			vnd.Assert(d > 0 && d <= time.Duration(ka)*3*time.Second/2, "keep alive: the write is limited to one and a half intervals")
		}
	}
	vnd.Assert(len(nc.packets()) == 1+n, "keep alive: exactly one PINGREQ is written")
	vnd.Cover("sent")
}

// HReconnect: a client that lost its connection connects again with other
// parameters; nothing of the old connection remains in force.
func HReconnect() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	k1, k2 := vnd.U16("first"), vnd.U16("second")
	connectWith(c, nc, &packets.Connect{ClientId: "id", KeepAlive: u16(k1), ReceiveMaximum: 1}, rm(1)...)
	ids(c, 1)
	ctx, cancel := within(time.Hour)
	defer cancel()
	if vnd.Choice("use", 2) == 1 {
		// leave one exchange open in each direction
		vnd.Assert(c.Publish(ctx, message(1)) == nil, "reconnect: message is sent")
		nc.feed(publish(4, "a", 5)...)
		vnd.Assert(poll(c) == nil, "reconnect: message is received")
	}
	switch vnd.Choice("how", 3) {
	case 0:
		vnd.Assert(c.Disconnect(ctx, false) == nil, "disconnect: a connected client can disconnect")
	case 1:
		nc.feed(0xE0, 0)
		poll(c)
	case 2:
		vnd.Assume(k1 != 0)
		vnd.Assume(k1 < 1000)
		vnd.Advance(time.Duration(2*int64(k1)+1) * time.Second)
		vnd.Assert(poll(c) != nil, "keep alive: no PINGRESP for twice the interval is reported")
	}
	vnd.Assert(!c.IsConnected(), "reconnect: the client is not connected")
	if vnd.Choice("reopen", 1) == 0 {
		// the transport of the embedding program can be opened again
		nc.reopen()
	}
	max := vnd.U16("rm")
	vnd.Assume(max >= 2)
	w := len(nc.packets())
	ctx2, cancel2 := within(time.Hour)
	defer cancel2()
	nc.feed(connack(0, 0, rm(max)...)...)
	err := c.Connect(ctx2, &packets.Connect{ClientId: "id", KeepAlive: u16(k2), ReceiveMaximum: 2})
	vnd.Assert(err == nil && c.IsConnected(), "reconnect: the client connects again")
	if err != nil {
		return
	}
	out := nc.since(w)
	vnd.Assert(len(out) == 1 && out[0].typ == 1, "reconnect: exactly one CONNECT is written")
	vnd.Assert(int64(c.KeepAliveInterval()) == int64(k2)*int64(time.Second), "reconnect: the keep alive is the one of the new connection")
	vnd.Assert(poll(c) == nil, "reconnect: the keep alive timeout starts again")
	// both quotas start again, and so does the set of messages being received
	ch := c.CreateEventChannel(8)
	for i := 0; i < 2; i++ {
		vnd.Assert(c.Publish(ctx2, message(1)) == nil, "reconnect: the send quota starts again")
		nc.feed(publish(4, "a", uint16(5+i))...)
		vnd.Assert(poll(c) == nil, "reconnect: the receive quota starts again")
		e, ok := drain(ch)
		vnd.Assert(ok && e.PacketType == packets.PUBLISH, "reconnect: a message of the new session is delivered")
	}
	vnd.Cover("connected again")
}
