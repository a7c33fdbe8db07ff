package client

import (
	"context"
	"errors"
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// HConnect: the handshake with any CONNACK the server may send.
func HConnect() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	ch := c.CreateEventChannel(2)
	vnd.Assert(!c.IsConnected(), "connect: a new client is not connected")
	p := &packets.Connect{ClientId: "id"}
	ka := vnd.U16("keepalive")
	p.KeepAlive = u16(ka)
	code := vnd.Byte("code")
	session := byte(0)
	var ps []ref.Prop
	ska := uint32(0)
	switch vnd.Choice("props", 4) {
	case 1:
		ska = uint32(vnd.U16("ska"))
		vnd.Assume(ska != 0)
		ps = append(ps, ref.Prop{ID: 0x13, Num: ska})
	case 2:
		ps = append(ps, ref.Prop{ID: 0x12, S: []byte("given")}, ref.Prop{ID: 0x1F, S: []byte("r")})
	case 3:
		m := vnd.U16("rm")
		vnd.Assume(m != 0)
		ps = append(ps, ref.Prop{ID: 0x21, Num: uint32(m)})
	}
	if code < 0x80 {
		vnd.Assume(code == 0)
		session = vnd.Byte("session")
		vnd.Assume(session <= 1)
	}
	nc.feed(connack(session, code, ps...)...)
	end := len(nc.in)
	nc.feed(0xD0, 0x00)
	ctx, cancel := within(time.Minute)
	defer cancel()
	if vnd.Choice("ctx", 2) == 1 {
		ctx = context.Background()
	}
	err := c.Connect(ctx, p)
	want, has := ctx.Deadline()
	if has {
		vnd.Assert(nc.deadline.Equal(want), "connect: the context's deadline bounds the connection")
	} else {
		vnd.Assert(nc.deadline.IsZero(), "connect: without a deadline the connection is not limited")
	}
	vnd.Assert(nc.pos == end, "connect: exactly the CONNACK is consumed")
	out := nc.packets()
	vnd.Assert(len(out) == 1 && out[0].typ == 1, "connect: exactly one CONNECT is written")
	if code >= 0x80 {
		vnd.Assert(err != nil, "connect: a refused connection is reported")
		var rc mqtt.ReasonCode
		if errors.As(err, &rc) {
			vnd.Assert(byte(rc) == code, "connect: the reason code is reported")
			vnd.Cover("refused")
		} else {
			vnd.Assert(false, "connect: the reason code is reported")
		}
		vnd.Assert(!c.IsConnected(), "connect: refused client is not connected")
		vnd.Assert(nc.closed, "connect: a refused connection is closed")
		return
	}
	vnd.Assert(err == nil, "connect: success is reported")
	vnd.Assert(c.IsConnected(), "connect: client is connected")
	vnd.Assert(!nc.closed, "connect: connection stays open")
	if ska != 0 {
		vnd.Assert(c.KeepAliveInterval() == time.Duration(ska)*time.Second, "connect: the server's keep alive is used")
		vnd.Cover("server keep alive")
	} else {
		vnd.Assert(c.KeepAliveInterval() == time.Duration(ka)*time.Second, "connect: own keep alive is used")
		vnd.Cover("own keep alive")
	}
	e, ok := drain(ch)
	vnd.Assert(ok && e.PacketType == packets.CONNACK, "connect: CONNACK event is signalled")
	if ok {
		ack, is := e.Data.(*packets.Connack)
		vnd.Assert(is, "connect: event carries the CONNACK")
		if is {
			vnd.Assert(ack.SessionPresent == (session == 1), "connect: session present")
			if vnd.Choice("check", 1) == 0 && len(ps) == 2 {
				vnd.Assert(ack.ClientId == "given", "connect: assigned client identifier")
			}
		}
	}
}

// HConnectFault: the handshake fails at any connection operation, or the
// server answers with something else.
func HConnectFault() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	ack := connack(0, 0)
	code := byte(0)
	switch vnd.Choice("answer", 5) {
	case 0:
		nc.failOp = 1 + vnd.Choice("fault", opRead)
		nc.failAt = 1 + vnd.Choice("at", 3)
	case 1: // another packet
		t := vnd.Byte("type")
		vnd.Assume(t != 2)
		vnd.Assume(t <= 15)
		ack = []byte{t << 4, 0}
	case 2: // cut short
		ack = ack[:vnd.Choice("cut", len(ack))]
		nc.eof = true
	case 3: // silence
		ack = nil
	case 4: // refused and the connection cannot be closed
		code = 0x87
		ack = connack(0, code)
		nc.failOp, nc.failAt = opClose, 1
	}
	nc.feed(ack...)
	ctx, cancel := within(time.Minute)
	defer cancel()
	err := c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 60})
	if err == nil {
		vnd.Assert(!nc.failed && code == 0, "connect: a failed handshake is reported")
		vnd.Assert(c.IsConnected(), "connect: client is connected")
		vnd.Cover("connected")
		return
	}
	vnd.Assert(!c.IsConnected(), "connect: a failed handshake leaves the client disconnected")
	vnd.Assert(len(nc.out) == 0 || nc.ops[opClose] > 0, "connect: a failed handshake ends the connection")
	vnd.Cover("failed")
	// nothing is left locked: the next operations return
	vnd.Assert(c.Poll(ctx) == mqtt.ErrClientNotConnected, "connect: client reports that it is not connected")
	c.Disconnect(ctx, false)
	nc.loose = true // closing may have failed
	c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 60})
}

// HDisconnect: an orderly disconnect with any session expiry.
func HDisconnect() {
	nc := newConn()
	expiry := vnd.U32("connect.expiry")
	c := online(nc, &packets.Connect{SessionExpiryInterval: packetsU32(expiry)})
	ch := c.CreateEventChannel(2)
	will := vnd.Bool("will")
	ctx, cancel := within(time.Minute)
	defer cancel()
	var err error
	want := uint32(0)
	if vnd.Choice("with", 2) == 0 {
		err = c.Disconnect(ctx, will)
	} else {
		x := vnd.U32("expiry")
		err = c.DisconnectWithSessionExpiry(ctx, will, int(x))
		if expiry != 0 {
			want = x
		}
	}
	vnd.Assert(err == nil, "disconnect: a connected client can disconnect")
	if err != nil {
		return
	}
	out := nc.since(1)
	vnd.Assert(len(out) == 1 && out[0].typ == 14 && out[0].flags == 0, "disconnect: exactly one DISCONNECT is written")
	if len(out) != 1 {
		return
	}
	d := out[0].c
	code := byte(0)
	var ps []ref.Prop
	if d.Left() > 0 {
		code = d.Byte()
		if d.Left() > 0 {
			ps = d.Props()
		}
	}
	vnd.Assert(!d.Bad && d.Left() == 0, "disconnect: DISCONNECT is well formed")
	if will {
		vnd.Assert(code == 4, "disconnect: the will is asked for")
		vnd.Cover("will")
	} else {
		vnd.Assert(code == 0, "disconnect: normal disconnection")
		vnd.Cover("normal")
	}
	n, x := ref.Count(ps, 0x11)
	vnd.Assert(n <= 1 && len(ps) == n, "disconnect: no other property")
	if expiry == 0 {
		vnd.Assert(n == 0 || x.Num == 0, "disconnect: no session expiry when CONNECT had none")
		vnd.Cover("no expiry")
	} else if want == 0 {
		vnd.Assert(n == 0, "disconnect: the session expiry of the CONNECT stays in force unless another one is asked for")
		vnd.Cover("expiry of the CONNECT")
	} else {
		vnd.Assert(n == 1 && x.Num == want, "disconnect: session expiry is sent")
		vnd.Cover("expiry")
	}
	vnd.Assert(nc.closed, "disconnect: connection is closed")
	vnd.Assert(!c.IsConnected(), "disconnect: client is not connected")
	e, ok := drain(ch)
	vnd.Assert(ok && e.PacketType == packets.DISCONNECT, "disconnect: event is signalled")
	usable(c, nc)
}

// usable checks that every operation of a client that is not connected
// returns at once and does no i/o.
func usable(c *mqtt.Client, nc *conn) {
	w := len(nc.out)
	ops := nc.ops
	ctx, cancel := within(time.Minute)
	defer cancel()
	for _, err := range []error{
		c.Poll(ctx), c.KeepAlive(), c.Publish(ctx, &packets.Publish{Topic: "t"}), c.Publish(ctx, &packets.Publish{Topic: "t", QoS: 1}),
		c.Subscribe(ctx, []mqtt.Topic{filter("t")}), c.Unsubscribe(ctx, []string{"t"}), c.Disconnect(ctx, true),
		c.DisconnectWithSessionExpiry(ctx, false, 3), c.Unsubscribe(ctx, []string{"t"}), c.Poll(ctx),
	} {
		vnd.Assert(errors.Is(err, mqtt.ErrClientNotConnected), "offline: operation reports that the client is not connected")
	}
	vnd.Assert(len(nc.out) == w && !nc.late, "offline: nothing is written")
	vnd.Assert(nc.ops == ops, "offline: the connection is not touched")
	vnd.Assert(!c.IsConnected(), "offline: client is not connected")
}

func filter(s string) mqtt.Topic {
	var t mqtt.Topic
	t.SetFilter(s)
	return t
}

// HOffline: operations before any handshake and after each way to lose the
// connection.
func HOffline() {
	nc := newConn()
	ctx, cancel := within(time.Minute)
	defer cancel()
	switch vnd.Choice("history", 5) {
	case 0:
		usable(mqtt.NewClient(nc), nc)
		vnd.Cover("never connected")
	case 1:
		c := mqtt.NewClient(nc)
		code := vnd.Byte("code")
		vnd.Assume(code >= 0x80)
		nc.feed(connack(0, code)...)
		c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 60})
		usable(c, nc)
		vnd.Cover("refused")
	case 2:
		c := online(nc, nil)
		vnd.Assert(c.Disconnect(ctx, false) == nil, "disconnect: a connected client can disconnect")
		usable(c, nc)
		vnd.Cover("disconnected")
	case 3:
		c := online(nc, nil)
		ch := c.CreateEventChannel(2)
		code := vnd.Byte("code")
		if vnd.Choice("form", 2) == 0 {
			vnd.Assume(code == 0)
			nc.feed(0xE0, 0)
		} else {
			nc.feed(ref.Packet(14, 0, []byte{code})...)
		}
		err := poll(c)
		_ = err // the statement leaves open whether Poll reports it
		vnd.Assert(nc.closed, "disconnect: connection is closed after the server's DISCONNECT")
		e, ok := drain(ch)
		vnd.Assert(ok && e.PacketType == packets.DISCONNECT, "disconnect: the server's DISCONNECT is signalled")
		if ok {
			d, is := e.Data.(*packets.Disconnect)
			vnd.Assert(is && byte(d.ReasonCode) == code, "disconnect: reason code of the server")
		}
		usable(c, nc)
		vnd.Cover("disconnected by the server")
	case 4:
		c := online(nc, &packets.Connect{KeepAlive: 10})
		vnd.Advance(21 * time.Second)
		vnd.Assert(poll(c) != nil, "keep alive: timeout is reported")
		usable(c, nc)
		vnd.Cover("keep alive timeout")
	}
}
