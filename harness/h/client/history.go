package client

import (
	"context"
	"errors"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// world is what a program and a server may expect of a client, kept up to
// date from the standard alone.
type world struct {
	nc   *conn
	c    *mqtt.Client
	s    *store // nil without storage
	all  mqtt.EventChannel
	mine mqtt.EventChannel // bound to the filter "a"

	online  bool
	bound   bool
	closed  bool // mine is closed
	limit   int  // of the server
	max     int  // of the client
	open    int  // messages sent on this connection and not completed
	sending []exchange
	arrived []uint16 // QoS 2 messages that are not released yet
	carried bool     // some of them come from an earlier connection
	lost    []uint16 // stored for exchanges of a session that ended
}

type exchange struct {
	id    uint16
	q     byte
	rec   bool // PUBREC was received
	older bool // sent on an earlier connection
}

func (w *world) find(id uint16) int {
	for i, e := range w.sending {
		if e.id == id {
			return i
		}
	}
	return -1
}

func (w *world) remove(i int) {
	w.sending = append(append([]exchange{}, w.sending[:i]...), w.sending[i+1:]...)
}

func has(l []uint16, id uint16) bool {
	for _, x := range l {
		if x == id {
			return true
		}
	}
	return false
}

// events takes everything signalled on a channel.
func events(ch mqtt.EventChannel) (types []packets.PacketType, got []*packets.Publish) {
	for {
		e, ok := drain(ch)
		if !ok {
			return
		}
		types = append(types, e.PacketType)
		if p, is := e.Data.(*packets.Publish); is && e.PacketType == packets.PUBLISH {
			got = append(got, p)
		}
	}
}

// wrote checks that exactly the packets of the types were written since n,
// each with the identifier if it has one.
func (w *world) wrote(n int, id uint16, types ...byte) bool {
	out := w.nc.since(n)
	ok := len(out) == len(types)
	if ok {
		for i, t := range types {
			ok = vnd.And(ok, out[i].typ == t)
			if t >= 4 && t <= 7 {
				ok = vnd.And(ok, out[i].c.U16() == id)
			}
		}
	}
	vnd.Assert(ok, "history: exactly the packets that the protocol requires are written")
	return ok
}

// id is any packet identifier the server may choose.
func (w *world) id() uint16 {
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	return id
}

// publishes sends a message.
func (w *world) publishes(q byte) {
	n := len(w.nc.packets())
	ctx, cancel := within(time.Second)
	defer cancel()
	m := &packets.Publish{Topic: "o", QoS: packets.QoS(q), Payload: vnd.Bytes("payload", 1)}
	want := m.Payload[0]
	err := w.c.Publish(ctx, m)
	switch {
	case !w.online:
		vnd.Assert(errors.Is(err, mqtt.ErrClientNotConnected), "history: a client that is not connected says so")
		w.wrote(n, 0)
	case q > 0 && w.open >= w.limit:
		vnd.Assert(errors.Is(err, context.DeadlineExceeded), "history: a message beyond the limit is refused when its context ends")
		w.wrote(n, 0)
		vnd.Cover("held")
	default:
		vnd.Assert(err == nil, "history: message is sent")
		if err != nil || !w.wrote(n, 0, 3) {
			vnd.Assume(false)
		}
		p := w.nc.since(n)[0]
		ok := p.flags == q<<1
		ok = vnd.And(ok, string(p.c.Str()) == "o")
		if q > 0 {
			id := p.c.U16()
			vnd.Assert(id != 0 && w.find(id) < 0, "history: the packet identifier is not in use")
			w.sending = append(w.sending, exchange{id: id, q: q})
			w.open++
		}
		p.c.Props()
		b := p.c.Take(p.c.Left())
		vnd.Assert(ok && len(b) == 1 && b[0] == want, "history: the message is what is sent")
	}
}

// receives lets the server send a message.
func (w *world) receives(q byte, id uint16) {
	topic := "b"
	if w.bound && vnd.Choice("topic", 2) == 1 {
		topic = "a"
	}
	fresh := q != 2 || !has(w.arrived, id)
	over := q > 0 && fresh && len(w.arrived) >= w.max
	if over && w.carried {
		vnd.Assume(false) // the standard leaves open what counts after a reconnect
	}
	n := len(w.nc.packets())
	payload := vnd.Bytes("payload", 1)
	fl := q << 1
	if !fresh {
		fl |= 8
	}
	w.nc.feed(publish(fl, topic, id, payload...)...)
	err := poll(w.c)
	types, got := events(w.all)
	_, bound := events(w.mine)
	if over {
		vnd.Assert(err != nil, "history: too many messages are reported")
		w.wrote(n, 0, 14)
		vnd.Assert(len(got) == 0 && len(bound) == 0, "history: a message beyond the limit is not delivered")
		w.ends()
		vnd.Cover("too many")
		return
	}
	vnd.Assert(err == nil, "history: message is received")
	switch {
	case q == 0:
		w.wrote(n, 0)
	case q == 1:
		w.wrote(n, id, 4)
	default:
		w.wrote(n, id, 5)
		if fresh {
			w.arrived = append(w.arrived, id)
		}
	}
	k := 0
	if fresh {
		k = 1
	}
	vnd.Assert(len(got) == k && len(types) == k, "history: every message is delivered once")
	if w.bound && topic == "a" {
		vnd.Assert(len(bound) == k, "history: every message is delivered to the channel bound to its topic")
		vnd.Cover("bound")
	} else {
		vnd.Assert(len(bound) == 0, "history: no message is delivered to a channel that is not bound to its topic")
	}
	for _, p := range append(append([]*packets.Publish{}, got...), bound...) {
		vnd.Assert(p.Topic.String() == topic && len(p.Payload) == 1 && p.Payload[0] == payload[0] && byte(p.QoS) == q, "history: the message is what is delivered")
	}
}

// signals checks that a packet was processed and signalled once.
func (w *world) signals(err error, t packets.PacketType) {
	vnd.Assert(err == nil, "history: the packet is processed")
	types, _ := events(w.all)
	vnd.Assert(len(types) == 1 && types[0] == t, "history: the packet is signalled once")
	types, _ = events(w.mine)
	vnd.Assert(len(types) == 0, "history: channels bound to a filter get messages only")
}

// acknowledges lets the server go on with one of its exchanges.
func (w *world) acknowledges(i int) {
	e := w.sending[i]
	n := len(w.nc.packets())
	done := func() {
		w.remove(i)
		if w.open > 0 {
			w.open--
		}
	}
	switch {
	case e.q == 1:
		w.nc.feed(ack(4, e.id, byte(0x87*vnd.Choice("refused", 2)))...)
		w.signals(poll(w.c), packets.PUBACK)
		w.wrote(n, 0)
		done()
	case e.rec:
		w.nc.feed(ack(7, e.id, 0)...)
		w.signals(poll(w.c), packets.PUBCOMP)
		w.wrote(n, 0)
		done()
		vnd.Cover("completed")
	case vnd.Choice("refused", 2) == 1:
		w.nc.feed(ack(5, e.id, 0x97)...)
		w.signals(poll(w.c), packets.PUBREC)
		w.wrote(n, 0)
		done()
	default:
		w.nc.feed(ack(5, e.id, 0)...)
		w.signals(poll(w.c), packets.PUBREC)
		w.wrote(n, e.id, 6)
		w.sending[i].rec = true
	}
}

// releases lets the server release a QoS 2 message, known or not.
func (w *world) releases(id uint16) {
	n := len(w.nc.packets())
	w.nc.feed(ack(6, id, 0)...)
	w.signals(poll(w.c), packets.PUBREL)
	w.wrote(n, id, 7)
	var left []uint16
	for _, x := range w.arrived {
		if x != id {
			left = append(left, x)
		}
	}
	w.arrived = left
}

// ends notes that the connection is over.
func (w *world) ends() {
	w.online = false
	vnd.Assert(!w.c.IsConnected() && w.nc.closed, "history: the connection is over")
	events(w.all)
	events(w.mine)
}

// connects opens a connection; the server continues the session or not.
func (w *world) connects(session byte) {
	if w.s != nil && session == 0 {
		for _, e := range w.sending {
			w.lost = append(w.lost, e.id)
		}
		for _, id := range w.arrived {
			w.lost = append(w.lost, id)
		}
	}
	w.nc.reopen()
	n := len(w.nc.packets())
	w.nc.feed(connack(session, 0, rm(uint16(w.limit))...)...)
	ctx, cancel := within(time.Minute)
	defer cancel()
	w.signals(w.c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 600, ReceiveMaximum: u16(uint16(w.max)), SessionExpiryInterval: 9}), packets.CONNACK)
	w.wrote(n, 0, 1)
	w.online, w.open = true, 0
	if session == 0 {
		w.sending, w.arrived, w.carried = nil, nil, false
	} else {
		w.carried = len(w.arrived) > 0
		for i := range w.sending {
			w.sending[i].older = true
		}
	}
	vnd.Assert(w.c.IsConnected(), "history: the client is connected")
}

// requests subscribes or unsubscribes.
func (w *world) requests(sub bool) {
	n := len(w.nc.packets())
	if !w.online {
		err := w.c.Unsubscribe(ctx2(), []string{"a"})
		if sub {
			err = w.c.Subscribe(ctx2(), []mqtt.Topic{bound("a", w.mine)})
		}
		vnd.Assert(errors.Is(err, mqtt.ErrClientNotConnected), "history: a client that is not connected says so")
		w.wrote(n, 0)
		return
	}
	code := byte(0x8F * vnd.Choice("refused", 2))
	var err error
	if sub {
		err = request(w.c, w.nc, 9, []byte{code}, func(ctx context.Context) error { return w.c.Subscribe(ctx, []mqtt.Topic{bound("a", w.mine)}) })
		w.wrote(n, 0, 8)
	} else {
		err = request(w.c, w.nc, 11, []byte{code}, func(ctx context.Context) error { return w.c.Unsubscribe(ctx, []string{"a"}) })
		w.wrote(n, 0, 10)
	}
	vnd.Assert((err == nil) == (code == 0), "history: a request succeeds when it is granted")
	types, _ := events(w.all)
	vnd.Assert(len(types) == 1 && (types[0] == packets.SUBACK) == sub, "history: the packet is signalled once")
	events(w.mine)
	switch {
	case code != 0:
	case sub && !w.closed:
		w.bound = true
		vnd.Cover("subscribed")
	case !sub && w.bound:
		w.bound, w.closed = false, true
		vnd.Cover("unsubscribed")
	}
}

// check compares what is stored with the exchanges that are open.
func (w *world) check() {
	vnd.Assert(w.c.IsConnected() == w.online, "history: the connected state")
	if w.s == nil {
		return
	}
	for _, e := range w.sending {
		vnd.Assert(w.s.find(e.id) >= 0, "history: a message is stored until its exchange is complete")
		if !e.rec {
			vnd.Assert(w.s.has(e.id, 3), "history: a message is stored until it is acknowledged")
		}
	}
	for _, id := range w.s.ids {
		vnd.Assert(w.find(id) >= 0 || has(w.arrived, id) || has(w.lost, id), "history: nothing is stored for exchanges that are complete")
	}
}

// newWorld is a client that is connected for the first time.
func newWorld(limit, max int, storage bool) *world {
	w := &world{nc: newConn(), limit: limit, max: max}
	w.c = mqtt.NewClient(w.nc)
	ids(w.c, 1)
	if storage {
		w.s = &store{}
		w.c.SetStorage(w.s)
	}
	w.all = w.c.CreateEventChannel(8)
	w.connects(0)
	w.mine = w.c.CreateEventChannel(8)
	if vnd.Param("subscribed", 1) == 1 {
		subscribe(w.c, w.nc, []mqtt.Topic{bound("a", w.mine)}, 0)
		w.bound = true
		events(w.all)
		events(w.mine)
	}
	return w
}

// step is one call of the program or one packet from the server.
func (w *world) step() {
	if !w.online {
		switch a := vnd.Choice("offline", 4); a {
		case 0, 1:
			w.connects(byte(a))
			if a == 1 {
				vnd.Cover("session continued")
			}
		case 2:
			w.publishes(byte(vnd.Choice("qos", 2)))
		case 3:
			w.requests(vnd.Choice("subscribe", 2) == 0)
		}
		w.check()
		return
	}
	n := len(w.nc.packets())
	switch vnd.Choice("step", 8) {
	case 0:
		w.publishes(byte(vnd.Choice("qos", 3)))
	case 1:
		w.receives(byte(vnd.Choice("qos", 3)), w.id())
	case 2:
		if len(w.sending) == 0 {
			vnd.Assume(false)
		}
		w.acknowledges(vnd.Choice("which", len(w.sending)))
	case 3:
		w.releases(w.id())
	case 4:
		w.requests(vnd.Choice("subscribe", 2) == 0)
	case 5:
		if vnd.Choice("ping", 2) == 0 {
			vnd.Assert(w.c.KeepAlive() == nil, "history: a ping is sent")
			w.wrote(n, 0, 12)
		} else {
			w.nc.feed(0xD0, 0)
			vnd.Assert(poll(w.c) == nil, "history: PINGRESP is processed")
			w.wrote(n, 0)
		}
	case 6:
		vnd.Assert(w.c.Disconnect(ctx2(), false) == nil, "history: the client disconnects")
		w.wrote(n, 0, 14)
		w.ends()
	case 7:
		if vnd.Choice("end", 2) == 0 {
			w.nc.feed(0xE0, 0)
			poll(w.c)
		} else {
			w.nc.eof = true
			vnd.Assert(poll(w.c) != nil, "history: the end of the stream is reported")
		}
		w.wrote(n, 0)
		w.ends()
	}
	w.check()
}

// HHistory: any history of calls and packets from a server that keeps to the
// protocol, against what the protocol requires of the client.
func HHistory() {
	w := newWorld(1+vnd.Choice("server maximum", vnd.Param("maxima", 2)), 1+vnd.Choice("maximum", vnd.Param("maxima", 2)), vnd.Choice("storage", 2) == 1)
	for i := 0; i < vnd.Param("steps", 3); i++ {
		w.step()
	}
	vnd.Cover("history")
}

// HApart: two clients take turns. Each behaves as if it were alone.
func HApart() {
	storage := vnd.Choice("storage", 2) == 1
	a := newWorld(1, 1, storage)
	b := newWorld(1, 1, storage)
	first := a
	if vnd.Choice("order", 2) == 1 {
		first, b = b, a
	}
	for i := 0; i < vnd.Param("steps", 3); i++ {
		if i%2 == 0 {
			first.step()
		} else {
			b.step()
		}
	}
	a.check()
	b.check()
	vnd.Cover("apart")
}

// HApartThreads: two clients are used at the same time, each by a goroutine
// that calls and one that polls. No data is shared and nothing gets mixed up.
func HApartThreads() {
	vnd.Races()
	done := make(chan bool, 2)
	var ncs [2]*conn
	var cs [2]*mqtt.Client
	var seen [2]mqtt.EventChannel
	for i := range cs {
		ncs[i] = newConn()
		cs[i] = online(ncs[i], nil, rm(1)...)
		ids(cs[i], 1)
		server(ncs[i])
		seen[i] = cs[i].CreateEventChannel(9)
		if vnd.Choice("storage", 2) == 1 {
			cs[i].SetStorage(memory.NewStorage())
		}
	}
	x := vnd.Choice("first", 7)
	y := x + vnd.Choice("second", 7-x)
	payloads := [2][]byte{vnd.Bytes("one", 2), vnd.Bytes("two", 2)}
	vnd.Explore(vnd.Param("preempt", 0))
	for i, k := range []int{x, y} {
		i, k := i, k
		go func() {
			vnd.Assert(operation(k, cs[i]) == nil, "apart: the call succeeds")
			done <- true
		}()
		go func() {
			ncs[i].feed(publish(0, "a", 0, payloads[i]...)...)
			for n := 0; n < 3; n++ {
				poll(cs[i])
				vnd.Yield()
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	vnd.Settle()
	for i, k := range []int{x, y} {
		ncs[i].packets()
		_, got := events(seen[i])
		vnd.Assert(len(got) == 1 || k == 6, "apart: each client delivers its own messages")
		for _, p := range got {
			vnd.Assert(vnd.EqBytes(p.Payload, payloads[i]), "apart: each client delivers its own messages")
		}
		vnd.Assert(cs[i].IsConnected() == (k != 6), "apart: each client has its own connection")
	}
	vnd.Cover("apart")
}
