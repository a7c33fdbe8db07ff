package client

import (
	"context"
	"errors"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// lose ends the connection from the side of the server and opens another one.
func lose(c *mqtt.Client, nc *conn) {
	nc.eof = true
	nc.poke()
	vnd.Assert(poll(c) != nil, "limits: the end of the connection is reported")
	nc.reopen()
}

// HAlias: messages with topics, topic aliases or both, over two connections.
func HAlias() {
	nc := newConn()
	max := &packets.Connect{TopicAliasMaximum: 65535}
	c := online(nc, max)
	general, a, b := c.CreateEventChannel(4), c.CreateEventChannel(4), c.CreateEventChannel(4)
	subscribe(c, nc, []mqtt.Topic{bound("a", a), bound("b/+", b)}, 0, 0)
	empty(general, a, b)
	type entry struct {
		alias uint16
		topic string
	}
	var known []entry
	lost := false
	for i, n := 0, vnd.Param("messages", 3); i < n; i++ {
		if i > 0 && !lost && vnd.Choice("reconnect", 2) == 1 {
			lost, known = true, nil
			lose(c, nc)
			handshake(c, nc, max)
			empty(general, a, b)
			vnd.Cover("reconnected")
		}
		topic := []string{"", "a", "b/c"}[vnd.Choice("topic", 3)]
		q := byte(vnd.Choice("qos", 2))
		var alias uint16
		var ps []ref.Prop
		if vnd.Choice("aliased", 2) == 1 {
			alias = vnd.U16("alias")
			vnd.Assume(alias != 0)
			ps = []ref.Prop{{ID: 0x23, Num: uint32(alias)}}
		}
		body := ref.AppStr(nil, []byte(topic))
		if q > 0 {
			body = ref.AppU16(body, 7)
		}
		w := len(nc.out)
		nc.feed(ref.Packet(3, q<<1, append(ref.AppProps(body, ps), byte(i)))...)
		err := poll(c)
		want := topic
		if topic == "" {
			for _, e := range known {
				if e.alias == alias {
					want = e.topic
				}
			}
		} else if alias != 0 {
			known = append(known, entry{alias, topic})
		}
		if want == "" {
			vnd.Assert(err != nil, "alias: an alias that the server has not set on this connection is reported")
			vnd.Assert(nc.closed, "alias: the connection is closed at an alias that is not set")
			vnd.Assert(len(nc.out) == w, "alias: a message with an alias that is not set is not acknowledged")
			for _, ch := range []mqtt.EventChannel{general, a, b} {
				_, ok := drain(ch)
				vnd.Assert(!ok, "alias: a message with an alias that is not set is not delivered")
			}
			vnd.Cover("unknown alias")
			return
		}
		vnd.Assert(err == nil, "alias: a message is received")
		vnd.Assert(len(nc.out) == w+int(q), "alias: a message is acknowledged")
		for j, ch := range []mqtt.EventChannel{general, a, b} {
			e, ok := drain(ch)
			if !ok {
				vnd.Assert(j > 0 && want != []string{"", "a", "b/c"}[j], "alias: a message reaches the channels of its topic")
				continue
			}
			p, is := e.Data.(*packets.Publish)
			vnd.Assert(is && string(p.Topic) == want, "alias: a message has the topic that its alias stands for")
			vnd.Assert(is && len(p.Payload) == 1 && p.Payload[0] == byte(i), "alias: a message has its payload")
			vnd.Assert(j == 0 || want == []string{"", "a", "b/c"}[j], "alias: a message reaches no channel of another topic")
			_, more := drain(ch)
			vnd.Assert(!more, "alias: a message is delivered once")
		}
		if topic == "" {
			vnd.Cover("known alias")
		}
	}
}

// announced are the limits in a CONNACK.
type announced struct {
	qos, alias int
	retain     bool
	size       uint32
}

func announce() (announced, []ref.Prop) {
	l := announced{qos: 2, retain: true}
	var ps []ref.Prop
	if vnd.Choice("limit.qos", 2) == 1 {
		q := vnd.Byte("max qos")
		vnd.Assume(q < 2)
		l.qos = int(q)
		ps = append(ps, ref.Prop{ID: 0x24, Num: uint32(q)})
	}
	if vnd.Choice("limit.retain", 2) == 1 {
		r := vnd.Byte("retain available")
		vnd.Assume(r < 2)
		l.retain = r == 1
		ps = append(ps, ref.Prop{ID: 0x25, Num: uint32(r)})
	}
	if vnd.Choice("limit.size", 2) == 1 {
		l.size = vnd.U32("max size")
		vnd.Assume(l.size != 0)
		ps = append(ps, ref.Prop{ID: 0x27, Num: l.size})
	}
	if vnd.Choice("limit.alias", 2) == 1 {
		m := vnd.U16("max alias")
		l.alias = int(m)
		ps = append(ps, ref.Prop{ID: 0x22, Num: uint32(m)})
	}
	return l, ps
}

// HLimits: whatever limits the server announces, nothing beyond them is sent,
// and everything within them is.
func HLimits() {
	nc := newConn()
	c := mqtt.NewClient(nc)
	ids(c, 1)
	s := &store{}
	c.SetStorage(s)
	if vnd.Choice("before", 2) == 1 { // a connection with other limits
		handshake(c, nc, nil, ref.Prop{ID: 0x24, Num: 0}, ref.Prop{ID: 0x25, Num: 0}, ref.Prop{ID: 0x27, Num: 5}, ref.Prop{ID: 0x22, Num: 9})
		lose(c, nc)
	}
	l, ps := announce()
	handshake(c, nc, nil, append(ps, rm(1)...)...)
	if vnd.Choice("what", 2) == 1 {
		limitedRequest(c, nc, l)
		return
	}
	for i := 0; i < 2; i++ {
		p := message(1)
		if i == 0 {
			p.QoS = packets.QoS(vnd.Choice("qos", 3))
			p.Retain = vnd.Choice("retain", 2) == 1
		}
		size := 7
		if p.QoS > 0 {
			size += 2
		}
		if i == 0 {
			alias := vnd.U16("alias")
			p.TopicAlias = u16(alias)
			if alias != 0 {
				size += 3
			}
			n := []int{0, 1, 119, 120, 121, 122}[vnd.Choice("len", 6)]
			p.Payload = make([]byte, n)
			size += n - 1
			if size-2 > 127 {
				size++
			}
		}
		fits := l.size == 0 || uint32(size) <= l.size
		may := vnd.And(vnd.And(int(p.QoS) <= l.qos, vnd.Or(vnd.Not(bool(p.Retain)), l.retain)), vnd.And(int(p.TopicAlias) <= l.alias, fits))
		w := len(nc.out)
		err := c.Publish(ctx2(), p)
		vnd.Assert((err == nil) == may, "limits: a message is sent exactly when it is within the limits of the server")
		if err != nil {
			var r mqtt.ReasonCode
			vnd.Assert(errors.As(err, &r), "limits: the reason for the refusal is reported")
			why := vnd.Or(vnd.Or(vnd.And(byte(r) == 0x9B, int(p.QoS) > l.qos), vnd.And(byte(r) == 0x9A, vnd.And(bool(p.Retain), vnd.Not(l.retain)))),
				vnd.Or(vnd.And(byte(r) == 0x94, int(p.TopicAlias) > l.alias), vnd.And(byte(r) == 0x95, vnd.Not(fits))))
			vnd.Assert(why, "limits: the reason for the refusal is that of a limit exceeded")
			vnd.Assert(len(nc.out) == w, "limits: a message beyond a limit is not sent")
			vnd.Assert(len(s.ids) == 0, "limits: a message beyond a limit is not stored")
			vnd.Cover("refused")
			continue
		}
		sent := nc.since(w)
		vnd.Assert(len(sent) == 1 && sent[0].typ == 3 && len(sent[0].b) == size, "limits: the message is sent")
		vnd.Cover("sent")
		if p.QoS > 0 { // the quota is given back, as it is when a message is refused
			t := byte(4)
			if p.QoS == 2 {
				t = 5
			}
			w = len(nc.out)
			nc.feed(ack(t, uint16(p.PacketIdentifier), 0x80)...)
			vnd.Assert(poll(c) == nil, "limits: the answer is received")
			vnd.Assert(len(nc.out) == w && len(s.ids) == 0, "limits: a refused message is done")
		}
	}
}

// limitedRequest: requests have a size too.
func limitedRequest(c *mqtt.Client, nc *conn, l announced) {
	f := "a/very/long/filter"[:1+5*vnd.Choice("filter", 4)]
	w := len(nc.out)
	var err error
	n := 8 + len(f)
	if vnd.Choice("subscribe", 2) == 1 {
		err = request(c, nc, 9, []byte{0}, func(ctx context.Context) error { return c.Subscribe(ctx, []mqtt.Topic{filter(f)}) })
	} else {
		n--
		err = request(c, nc, 11, []byte{0}, func(ctx context.Context) error { return c.Unsubscribe(ctx, []string{f}) })
	}
	vnd.Assert((err == nil) == (l.size == 0 || uint32(n) <= l.size), "limits: a request is sent exactly when the server takes packets of its size")
	if err != nil {
		vnd.Assert(len(nc.out) == w, "limits: a request that is too large is not sent")
		vnd.Assert(err == mqtt.ReasonCode(0x95), "limits: the reason for the refusal is that of a limit exceeded")
		vnd.Cover("request refused")
		return
	}
	sent := nc.since(w)
	vnd.Assert(len(sent) == 1 && len(sent[0].b) == n, "limits: the request is sent")
	vnd.Cover("request sent")
}
