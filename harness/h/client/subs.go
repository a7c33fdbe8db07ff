package client

import (
	"context"
	"errors"
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// HSubscribe: a subscription to one or two filters and any answer to it.
func HSubscribe() {
	nc := newConn()
	c := online(nc, nil)
	n := 1 + vnd.Choice("filters", vnd.Param("filters", 2))
	names := []string{"a", "b/+", "c/#"}[:n]
	var ts []mqtt.Topic
	var opts []byte
	var chs []mqtt.EventChannel
	for _, s := range names {
		t := filter(s)
		o := vnd.Byte("options")
		vnd.Assume(o&3 <= 2 && o>>4&3 <= 2 && o < 64)
		t.SetQoS(packets.QoS(o & 3))
		t.SetNoLocal(o&4 != 0)
		t.SetRetainAsPublished(o&8 != 0)
		t.SetRetainHandling(packets.RetainHandlingOption(o >> 4 & 3))
		opts = append(opts, o)
		ch := c.CreateEventChannel(2)
		chs = append(chs, ch)
		if vnd.Choice("bind", 2) == 1 {
			t.SetEventChannel(ch)
		}
		ts = append(ts, t)
	}
	_ = chs
	codes := vnd.Bytes("codes", n)
	var seen []byte
	nc.onWrite = nil
	w := len(nc.packets())
	err := request(c, nc, 9, codes, func(ctx context.Context) error { return c.Subscribe(ctx, ts) })
	out := nc.since(w)
	vnd.Assert(len(out) == 1 && out[0].typ == 8 && out[0].flags == 2, "subscribe: exactly one SUBSCRIBE is written")
	if len(out) != 1 {
		return
	}
	p := out[0].c
	vnd.Assert(p.U16() != 0, "subscribe: packet identifier")
	p.Props()
	for i := range names {
		f := p.Str()
		o := p.Byte()
		vnd.Assert(string(f) == names[i] && o == opts[i], "subscribe: filters and options are sent in order")
	}
	vnd.Assert(!p.Bad && p.Left() == 0, "subscribe: SUBSCRIBE is well formed")
	_ = seen
	bad := -1
	for i, x := range codes {
		if x >= 0x80 && bad < 0 {
			bad = i
		}
	}
	if bad >= 0 {
		var rc mqtt.ReasonCode
		ok := errors.As(err, &rc)
		vnd.Assert(ok && byte(rc) == codes[bad], "subscribe: a refused filter is reported with its reason code")
		vnd.Cover("refused")
	} else {
		vnd.Assert(err == nil, "subscribe: a granted subscription is reported")
		vnd.Cover("granted")
	}
	// which channels were bound shows in what they get
	if vnd.Choice("same identifier", 2) == 1 {
		nc.feed(acks(9, 1, 0)...)
		vnd.Assert(poll(c) == nil, "subscribe: a late answer does no harm")
	}
}

// HSubscribeBinding: which channels a partly granted subscription binds.
func HSubscribeBinding() {
	nc := newConn()
	c := online(nc, nil)
	a, b := c.CreateEventChannel(4), c.CreateEventChannel(4)
	codes := vnd.Bytes("codes", 2)
	err := request(c, nc, 9, codes, func(ctx context.Context) error {
		return c.Subscribe(ctx, []mqtt.Topic{bound("a", a), bound("b", b)})
	})
	vnd.Assert((err != nil) == (codes[0] >= 0x80 || codes[1] >= 0x80), "subscribe: a refused filter is reported")
	for _, ch := range []mqtt.EventChannel{a, b} {
		for {
			if _, ok := drain(ch); !ok {
				break
			}
		}
	}
	for i, ch := range []mqtt.EventChannel{a, b} {
		other := []mqtt.EventChannel{b, a}[i]
		name := []string{"a", "b"}[i]
		nc.feed(publish(0, name, 0, 1)...)
		vnd.Assert(poll(c) == nil, "subscribe: message is processed")
		e, ok := drain(ch)
		vnd.Assert(ok && e.PacketType == packets.PUBLISH, "subscribe: messages of the filter are delivered")
		if codes[i] < 0x80 {
			_, more := drain(ch)
			vnd.Assert(!more, "subscribe: a message is delivered once")
		}
		if codes[1-i] < 0x80 {
			_, wrong := drain(other)
			vnd.Assert(!wrong, "subscribe: a channel bound to one filter gets no messages of another")
			vnd.Cover("bound")
		} else {
			drain(other)
		}
	}
}

// HSubscribeFault: answers that do not fit, no answer, and failures of the
// connection: the call ends and the client stays usable.
func HSubscribeFault() {
	nc := newConn()
	c := online(nc, nil)
	ids(c, 5)
	unsub := vnd.Choice("request", 2) == 1
	names := []string{"a", "b"}
	ctx, cancel := within(5 * time.Second)
	defer cancel()
	typ := byte(9)
	call := func() error {
		return c.Subscribe(ctx, []mqtt.Topic{filter("a"), filter("b")})
	}
	if unsub {
		typ = 11
		call = func() error { return c.Unsubscribe(ctx, names) }
	}
	var answer []byte
	kind := vnd.Choice("answer", 8)
	switch kind {
	case 0: // none
	case 1: // of the other kind
		answer = acks(20-typ, 5, 0, 0)
	case 2: // too few codes
		answer = acks(typ, 5, 0)
	case 3: // too many codes
		answer = acks(typ, 5, 0, 0, 0)
	case 4: // of another request
		id := vnd.U16("id")
		vnd.Assume(id != 5)
		answer = acks(typ, id, 0, 0)
	case 5:
		nc.failOp, nc.failAt = opDeadline, nc.ops[opDeadline]+1
	case 6:
		nc.failOp, nc.failAt = opWrite, nc.ops[opWrite]+1
	case 7: // twice
		answer = append(acks(typ, 5, 0, 0), acks(typ, 5, 0, 0)...)
	}
	done := make(chan error, 1)
	start := time.Now()
	go func() { done <- call() }()
	vnd.Settle()
	nc.failOp = opNone
	nc.feed(answer...)
	for nc.pos < len(nc.in) {
		poll(c)
	}
	err := <-done
	if kind != 0 && kind != 4 {
		vnd.Assert(time.Since(start) < time.Second, "request: the outcome is reported when it is known")
	} else {
		vnd.Assert(errors.Is(err, context.DeadlineExceeded), "request: a call that got no answer ends when its context does")
	}
	if kind == 7 {
		vnd.Assert(err == nil, "request: a granted request is reported")
	} else {
		vnd.Assert(err != nil, "request: a request that is not granted is reported")
	}
	vnd.Cover("ended")
	// everything goes on
	vnd.Assert(c.KeepAlive() == nil, "request: the client goes on")
	w := len(nc.packets())
	nc.feed(publish(2, "z", 9)...)
	vnd.Assert(poll(c) == nil, "request: the client goes on")
	acked(nc, w, 4, 9, "request: the client goes on")
	subscribe(c, nc, []mqtt.Topic{filter("a")}, 0)
	vnd.Assert(c.Disconnect(ctx2(), false) == nil, "request: the client goes on")
	// the empty request
	vnd.Assert(errors.Is(c.Subscribe(ctx, nil), mqtt.ErrInvalidArgument), "request: an empty request is refused")
	vnd.Assert(errors.Is(c.Unsubscribe(ctx, nil), mqtt.ErrInvalidArgument), "request: an empty request is refused")
}

func ctx2() context.Context {
	ctx, _ := within(time.Hour)
	return ctx
}

// HUnsubscribe: the end of a subscription, with any answer to it.
func HUnsubscribe() {
	nc := newConn()
	c := online(nc, nil)
	general := c.CreateEventChannel(8)
	a, b := c.CreateEventChannel(4), c.CreateEventChannel(4)
	keep := c.CreateEventChannel(4)
	subscribe(c, nc, []mqtt.Topic{bound("a", a), bound("b", b), bound("k", keep)}, 0, 0, 0)
	empty(a, b, keep)
	both := vnd.Choice("both", 2) == 1
	names := []string{"a"}
	if both {
		names = append(names, "b")
	}
	if vnd.Choice("unbound", 2) == 1 {
		names = append(names, "u") // has no channel
	}
	codes := vnd.Bytes("codes", len(names))
	w := len(nc.packets())
	err := request(c, nc, 11, codes, func(ctx context.Context) error { return c.Unsubscribe(ctx, names) })
	out := nc.since(w)
	vnd.Assert(len(out) == 1 && out[0].typ == 10 && out[0].flags == 2, "unsubscribe: exactly one UNSUBSCRIBE is written")
	if len(out) != 1 {
		return
	}
	p := out[0].c
	vnd.Assert(p.U16() != 0, "unsubscribe: packet identifier")
	p.Props()
	for _, s := range names {
		vnd.Assert(string(p.Str()) == s, "unsubscribe: filters are sent in order")
	}
	vnd.Assert(!p.Bad && p.Left() == 0, "unsubscribe: UNSUBSCRIBE is well formed")
	bad := -1
	for i, x := range codes {
		if x >= 0x80 && bad < 0 {
			bad = i
		}
	}
	if bad >= 0 {
		var rc mqtt.ReasonCode
		vnd.Assert(errors.As(err, &rc) && byte(rc) == codes[bad], "unsubscribe: a refusal is reported with its reason code")
		vnd.Cover("refused")
	} else {
		vnd.Assert(err == nil, "unsubscribe: success is reported")
		vnd.Cover("success")
	}
	empty(general)
	for i, ch := range []mqtt.EventChannel{a, b, keep} {
		nc.feed(publish(0, []string{"a", "b", "k"}[i], 0, 1)...)
		vnd.Assert(poll(c) == nil, "unsubscribe: message is processed")
		e, ok := drain(general)
		vnd.Assert(ok && e.PacketType == packets.PUBLISH, "unsubscribe: channels bound to nothing stay")
		e, ok = drain(ch)
		gone := (i == 0 || i == 1 && both) && codes[i] < 0x80
		if gone {
			vnd.Assert(!ok, "unsubscribe: no messages of the filter are delivered any more")
			done := false
			select {
			case <-ch.Done:
				done = true
			default:
			}
			vnd.Assert(done, "unsubscribe: the end of the channel is signalled")
			c.CloseEventChannel(ch)
			vnd.Cover("gone")
		} else {
			vnd.Assert(ok && e.PacketType == packets.PUBLISH, "unsubscribe: other subscriptions stay")
			vnd.Cover("stays")
		}
	}
}

// HRequests: several requests are open at once and answered in any order.
func HRequests() {
	vnd.Races()
	nc := newConn()
	c := online(nc, nil)
	ids(c, 1)
	n := vnd.Param("requests", 2)
	type answer struct{ b []byte }
	var pend [][]byte
	nc.onWrite = func(b []byte) {
		id := uint16(b[2])<<8 | uint16(b[3])
		switch b[0] >> 4 {
		case 8:
			pend = append(pend, acks(9, id, byte(id)))
		case 10:
			pend = append(pend, acks(11, id, 0))
		}
	}
	res := make([]error, n)
	done := make(chan int, n)
	kinds := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		kinds[i] = vnd.Choice("kind", 2)
		go func() {
			ctx, cancel := within(time.Hour)
			defer cancel()
			if kinds[i] == 0 {
				res[i] = c.Subscribe(ctx, []mqtt.Topic{filter("a")})
			} else {
				res[i] = c.Unsubscribe(ctx, []string{"a"})
			}
			done <- i
		}()
		vnd.Settle()
	}
	vnd.Assert(len(pend) == n, "request: requests do not wait for each other")
	for len(pend) > 0 {
		k := vnd.Choice("order", len(pend))
		nc.feed(pend[k]...)
		pend = append(append([][]byte{}, pend[:k]...), pend[k+1:]...)
		vnd.Assert(poll(c) == nil, "request: the answer is processed")
	}
	for i := 0; i < n; i++ {
		<-done
	}
	for _, err := range res {
		vnd.Assert(err == nil, "request: every request gets its own answer")
	}
	vnd.Cover("answered")
}

var _ = ref.Packet
