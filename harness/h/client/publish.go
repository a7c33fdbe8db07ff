package client

import (
	"context"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// store records what the client keeps in it.
type store struct {
	ids    []uint16
	vals   []any
	failAt int // the failAt-th Store fails
	n      int
	dropAt int // the dropAt-th Drop fails
	nd     int
	onAdd  func(id uint16)
}

func (s *store) find(id uint16) int {
	for i, x := range s.ids {
		if x == id {
			return i
		}
	}
	return -1
}

func (s *store) Store(id uint16, p any) error {
	s.n++
	if s.n == s.failAt {
		return errStore
	}
	if s.find(id) >= 0 {
		return storage.ErrDuplicateEntry
	}
	s.ids, s.vals = append(s.ids, id), append(s.vals, p)
	if s.onAdd != nil {
		s.onAdd(id)
	}
	return nil
}

func (s *store) Get(id uint16) (any, error) {
	if i := s.find(id); i >= 0 {
		return s.vals[i], nil
	}
	return nil, storage.ErrNoEntry
}

func (s *store) Drop(id uint16) error {
	s.nd++
	if s.nd == s.dropAt {
		return errStore
	}
	i := s.find(id)
	if i < 0 {
		return storage.ErrNoEntry
	}
	var ids []uint16
	var vals []any
	for k := range s.ids {
		if k != i {
			ids, vals = append(ids, s.ids[k]), append(vals, s.vals[k])
		}
	}
	s.ids, s.vals = ids, vals
	return nil
}

// has says whether a PUBLISH (typ 3) or an acknowledgement record is kept.
func (s *store) has(id uint16, typ int) bool {
	i := s.find(id)
	if i < 0 {
		return false
	}
	_, pub := s.vals[i].(*packets.Publish)
	return pub == (typ == 3)
}

func message(q byte) *packets.Publish {
	return &packets.Publish{Topic: "t", QoS: packets.QoS(q), Payload: []byte{1}}
}

// ids makes the packet identifiers of a run distinct and known.
func ids(c *mqtt.Client, first uint32) {
	n := first
	c.SetRngFn(func() uint32 { n++; return n - 1 })
}

// HQuota: a history of publishes and acknowledgements against a server with
// any Receive Maximum.
func HQuota() {
	nc := newConn()
	limit := 65535
	max := uint16(0)
	if vnd.Choice("limited", 2) == 1 {
		max = vnd.U16("rm")
		vnd.Assume(max != 0)
		limit = int(max)
	}
	c := online(nc, nil, rm(max)...)
	ids(c, 1)
	next := uint16(1)
	type flight struct {
		id  uint16
		q   byte
		rec bool
	}
	var fl []flight
	sent := 1
	steps := vnd.Param("steps", 4)
	for i := 0; i < steps; i++ {
		n := 3
		if len(fl) > 0 {
			n = 5
		}
		switch a := vnd.Choice("action", n); a {
		case 0, 1, 2:
			q := byte(a)
			ctx, cancel := within(time.Second)
			err := c.Publish(ctx, message(q))
			cancel()
			out := nc.since(sent)
			if q > 0 && len(fl) >= limit {
				vnd.Assert(err != nil, "quota: a publish that cannot be sent before its context ends is refused")
				vnd.Assert(len(out) == 0, "quota: no more unacknowledged messages than the server accepts")
				vnd.Cover("held")
				next = 0 // an identifier may or may not have been used up
				return
			}
			vnd.Assert(err == nil, "quota: a publish within the quota is sent")
			vnd.Assert(len(out) == 1 && out[0].typ == 3 && out[0].flags>>1&3 == q, "quota: exactly the PUBLISH is written")
			if err != nil || len(out) != 1 {
				return
			}
			sent++
			if q > 0 {
				out[0].c.Str()
				id := out[0].c.U16()
				fl = append(fl, flight{id: id, q: q})
			} else {
				vnd.Cover("quality of service 0")
			}
		case 3: // the oldest exchange completes
			f := fl[0]
			if f.q == 1 {
				nc.feed(ack(4, f.id, 0)...)
			} else {
				if !f.rec {
					nc.feed(ack(5, f.id, 0)...)
					vnd.Assert(poll(c) == nil, "quota: PUBREC is processed")
					sent++ // PUBREL
				}
				nc.feed(ack(7, f.id, 0)...)
			}
			vnd.Assert(poll(c) == nil, "quota: acknowledgement is processed")
			fl = fl[1:]
		case 4: // the newest makes progress, or fails
			k := len(fl) - 1
			f := fl[k]
			if f.rec {
				continue
			}
			code := byte(0x80 + vnd.Choice("fail", 2))
			if f.q == 1 {
				nc.feed(ack(4, f.id, code)...)
				fl = fl[:k]
			} else if vnd.Choice("received", 2) == 1 {
				nc.feed(ack(5, f.id, 0)...)
				fl[k].rec = true
				sent++
			} else {
				nc.feed(ack(5, f.id, code)...)
				fl = fl[:k]
			}
			vnd.Assert(poll(c) == nil, "quota: acknowledgement is processed")
		}
		vnd.Assert(len(nc.packets()) == sent, "quota: nothing else is written")
	}
	_ = next
	vnd.Cover("history")
}

// HQuotaHeld: publishers and a poller on their own goroutines; the server
// acknowledges what it gets. Every publish goes out and the limit is kept.
func HQuotaHeld() {
	vnd.Races()
	nc := newConn()
	limit := 1 + vnd.Choice("rm", vnd.Param("rm", 1))
	c := online(nc, nil, rm(uint16(limit))...)
	ids(c, 1)
	open := 0
	answer := vnd.Choice("answer", 3)
	nc.onWrite = func(b []byte) {
		switch b[0] >> 4 {
		case 3:
			open++
			vnd.Assert(open <= limit, "quota: no more unacknowledged messages than the server accepts")
			id := uint16(b[5])<<8 | uint16(b[6])
			switch {
			case b[0]>>1&3 == 1:
				nc.feed(ack(4, id, 0)...)
				open--
			case answer == 1:
				nc.feed(ack(5, id, 0x97)...)
				open--
			default:
				nc.feed(ack(5, id, 0)...)
			}
		case 6:
			id := uint16(b[2])<<8 | uint16(b[3])
			nc.feed(ack(7, id, 0)...)
			open--
		}
	}
	q := byte(1)
	if answer != 0 {
		q = 2
	}
	n := vnd.Param("publishers", 2)
	done := make(chan error, n)
	vnd.Explore(vnd.Param("preempt", 1))
	for i := 0; i < n; i++ {
		go func() { done <- c.Publish(context.Background(), message(q)) }()
	}
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
			}
			if err := poll(c); err != nil {
				vnd.Assert(false, "quota: polling succeeds")
				return
			}
			vnd.Yield()
		}
	}()
	for i := 0; i < n; i++ {
		vnd.Assert(<-done == nil, "quota: every held publish is sent in the end")
	}
	close(stop)
	vnd.Cover("all sent")
}

// HPersist: what is kept in the storage during the exchange of one message.
func HPersist() {
	nc := newConn()
	c := online(nc, nil, rm(8)...)
	s := &store{}
	c.SetStorage(s)
	q := byte(1 + vnd.Choice("qos", 2))
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	p := message(q)
	if vnd.Choice("own", 2) == 1 {
		p.PacketIdentifier = u16(id)
	} else {
		c.SetRngFn(func() uint32 { return uint32(id) })
	}
	nc.onWrite = func(b []byte) {
		switch b[0] >> 4 {
		case 3:
			vnd.Assert(s.has(id, 3), "persist: the message is stored before it is sent")
		case 6:
			vnd.Assert(s.find(id) >= 0, "persist: the exchange is stored until it is complete")
		}
	}
	fault := vnd.Choice("fault", 5)
	switch fault {
	case 1:
		s.failAt = 1
	case 2:
		nc.failOp, nc.failAt = opDeadline, nc.ops[opDeadline]+1
	case 3:
		// cannot be encoded: a topic that is too long
		p.Topic = primitives.PrimitiveString(make([]byte, 65536))
	case 4:
		nc.failOp, nc.failAt = opWrite, nc.ops[opWrite]+1
	}
	ctx, cancel := within(time.Second)
	defer cancel()
	err := c.Publish(ctx, p)
	if fault != 0 {
		vnd.Assert(err != nil, "persist: a message that is not sent is reported")
		vnd.Assert(len(nc.out) == 1, "persist: nothing is sent")
		if fault < 4 {
			vnd.Assert(s.find(id) < 0, "persist: a message that was not sent is not kept")
			// the quota is not used up either
			p2 := message(q)
			c.SetRngFn(func() uint32 { return uint32(id) })
			nc.failOp = opNone
			nc.onWrite = nil
			s.failAt = 0
			for i := 0; i < 8; i++ {
				p2.PacketIdentifier = u16(uint16(i) + 1)
				if c.Publish(ctx, p2) != nil {
					vnd.Assert(false, "persist: a message that was not sent does not use the quota")
				}
			}
		} else {
			vnd.Assert(s.has(id, 3), "persist: a message that may have been sent is kept")
		}
		vnd.Cover("fault")
		return
	}
	vnd.Assert(err == nil, "persist: message is sent")
	vnd.Assert(len(nc.out) == 2, "persist: message is sent")
	vnd.Assert(s.has(id, 3), "persist: the message is kept until it is acknowledged")
	// other traffic does not remove it
	other := vnd.U16("other")
	vnd.Assume(other != 0)
	switch vnd.Choice("traffic", 4) {
	case 1:
		nc.feed(publish(0, "x", 0)...)
		poll(c)
	case 2:
		nc.feed(publish(2, "x", other)...)
		poll(c)
	case 3:
		nc.feed(publish(4, "x", other)...)
		poll(c)
		nc.feed(ack(6, other, 0)...)
		poll(c)
	}
	vnd.Assert(s.has(id, 3), "persist: the message is kept until it is acknowledged")
	vnd.Assert(len(s.ids) == 1, "persist: nothing else is kept")
	if q == 1 {
		code := vnd.Byte("code")
		nc.feed(ack(4, id, code)...)
		vnd.Assert(poll(c) == nil, "persist: PUBACK is processed")
		vnd.Cover("PUBACK")
	} else if vnd.Choice("refused", 2) == 1 {
		code := vnd.Byte("code")
		vnd.Assume(code >= 0x80)
		nc.feed(ack(5, id, code)...)
		vnd.Assert(poll(c) == nil, "persist: PUBREC is processed")
		vnd.Cover("refused")
	} else {
		code := vnd.Byte("code")
		vnd.Assume(code < 0x80)
		nc.feed(ack(5, id, code)...)
		vnd.Assert(poll(c) == nil, "persist: PUBREC is processed")
		vnd.Assert(s.find(id) >= 0 && !s.has(id, 3), "persist: PUBREC replaces the message")
		nc.feed(ack(7, id, vnd.Byte("comp"))...)
		vnd.Assert(poll(c) == nil, "persist: PUBCOMP is processed")
		vnd.Cover("PUBCOMP")
	}
	vnd.Assert(s.find(id) < 0, "persist: a completed exchange is not kept")
	vnd.Assert(len(s.ids) == 0, "persist: nothing is left")
}

// HPacketID: identifiers the client assigns, whatever the random source gives.
func HPacketID() {
	nc := newConn()
	c := online(nc, nil, rm(20)...)
	withStore := vnd.Choice("storage", 2) == 1
	s := &store{}
	if withStore {
		c.SetStorage(s)
	}
	c.SetRngFn(func() uint32 { return vnd.U32("rng") })
	var used []uint16
	n := vnd.Param("packets", 3)
	if withStore && vnd.Choice("stored before", 2) == 1 {
		// what an earlier run of the program has left
		id := vnd.U16("stored")
		vnd.Assume(id != 0)
		s.Store(id, message(1))
		used = append(used, id)
		n--
		vnd.Cover("stored before")
	}
	waiting := 0
	for i := 0; i < n; i++ {
		ctx, cancel := within(time.Second)
		k := vnd.Choice("what", 4)
		w := len(nc.packets())
		switch k {
		case 0, 1:
			vnd.Assert(c.Publish(ctx, message(byte(k+1))) == nil, "identifier: message is sent")
		case 2, 3:
			// a request whose call ends before the answer keeps its identifier
			if waiting < 2 {
				waiting++
				short, stop := context.WithCancel(context.Background())
				ended := make(chan bool)
				go func() {
					if k == 2 {
						c.Subscribe(short, []mqtt.Topic{filter("a")})
					} else {
						c.Unsubscribe(short, []string{"a"})
					}
					close(ended)
				}()
				vnd.Settle()
				if vnd.Choice("abandon", 2) == 1 {
					stop()
					<-ended
				}
				defer stop()
			}
		}
		cancel()
		out := nc.since(w)
		for _, p := range out {
			if p.typ == 3 {
				p.c.Str()
			}
			id := p.c.U16()
			vnd.Assert(id != 0, "identifier: never zero")
			for _, u := range used {
				vnd.Assert(id != u, "identifier: not in use")
			}
			used = append(used, id)
		}
	}
	vnd.Cover("assigned")
}

// HStoreFault: the storage fails while a packet is processed.
func HStoreFault() {
	nc := newConn()
	c := online(nc, nil, rm(4)...)
	s := &store{}
	c.SetStorage(s)
	ids(c, 5)
	ctx, cancel := within(time.Hour)
	defer cancel()
	// one message on its way out, one on its way in
	q := byte(1 + vnd.Choice("qos", 2))
	vnd.Assert(c.Publish(ctx, message(q)) == nil, "storage: message is sent")
	rec := q == 2 && vnd.Choice("received", 2) == 1
	if rec {
		nc.feed(ack(5, 5, 0)...)
		vnd.Assert(poll(c) == nil, "storage: PUBREC is processed")
	}
	arrived := vnd.Choice("arrived", 2) == 1
	if arrived {
		nc.feed(publish(4, "a", 9, 1)...)
		vnd.Assert(poll(c) == nil, "storage: message is received")
	}
	all := c.CreateEventChannel(8)
	w := len(nc.packets())
	id := vnd.U16("id")
	vnd.Assume(id != 0)
	kind := vnd.Choice("packet", 7)
	switch kind {
	case 0, 1, 2, 3:
		code := vnd.Byte("code")
		vnd.Assume(vnd.Or(code < 0x80, kind < 2))
		nc.feed(ack(byte(4+kind), id, code)...)
	default:
		nc.feed(publish(byte(kind-4)<<1, "a", id, 1)...)
	}
	which := vnd.Choice("fails", 2)
	if which == 0 {
		s.failAt = s.n + 1
	} else {
		s.dropAt = s.nd + 1
	}
	n, nd := s.n, s.nd
	err := poll(c)
	failed := s.n > n && which == 0 || s.nd > nd && which == 1
	s.failAt, s.dropAt = 0, 0
	if kind < 4 {
		vnd.Assert((err != nil) == failed, "storage: a failure while an acknowledgement is processed is reported")
	} else {
		// the message was acknowledged, so it has to be delivered
		typ := []byte{0, 4, 5}[kind-4]
		if typ != 0 {
			acked(nc, w, typ, id, "storage: the message is acknowledged")
		}
		if !(arrived && kind == 6) {
			_, got := events(all)
			vnd.Assert(len(got) == 1, "storage: a message that is acknowledged is delivered")
		}
	}
	if failed {
		vnd.Cover("failed")
	}
	// everything goes on
	vnd.Assert(c.IsConnected(), "storage: the client stays connected")
	w = len(nc.packets())
	nc.feed(publish(2, "z", 77)...)
	vnd.Assert(poll(c) == nil, "storage: the client goes on")
	acked(nc, w, 4, 77, "storage: the client goes on")
	vnd.Assert(c.KeepAlive() == nil, "storage: the client goes on")
	for i := 0; i < 2; i++ {
		vnd.Assert(c.Publish(ctx, message(1)) == nil, "storage: the client goes on")
	}
	out := nc.since(w + 2)
	vnd.Assert(len(out) == 2, "storage: the client goes on")
	for _, p := range out {
		p.c.Str()
		x := p.c.U16()
		vnd.Assert(s.has(x, 3), "storage: messages are stored again")
		if q == 2 && !(kind == 3 || kind == 1) {
			vnd.Assert(x != 5, "storage: an identifier in use is not given to another message")
		}
	}
	vnd.Assert(c.Disconnect(ctx, false) == nil, "storage: the client goes on")
}

// HQuotaDefault: a server that gave no Receive Maximum takes 65,535 messages.
func HQuotaDefault() {
	nc := newConn()
	c := online(nc, nil)
	ids(c, 1)
	n := vnd.Param("messages", 1000)
	how := vnd.Choice("how", 4) // QoS 1, QoS 2, QoS 2 refused, QoS 2 and a new session
	p := message([]byte{1, 2, 2, 2}[how])
	ctx, cancel := within(time.Hour)
	defer cancel()
	for i := 0; i < n; i++ {
		nc.out = nil
		p.PacketIdentifier = 0
		err := c.Publish(ctx, p)
		vnd.Assert(err == nil && len(nc.packets()) == 1, "quota: a message within 65,535 is sent")
		if err != nil {
			return
		}
	}
	vnd.Cover("sent")
	if n == 65535 {
		nc.out = nil
		short, stop := within(time.Second)
		p.PacketIdentifier = 0
		vnd.Assert(c.Publish(short, p) != nil && len(nc.out) == 0, "quota: a message beyond 65,535 is held")
		stop()
		vnd.Cover("held")
	}
	nc.in, nc.pos, nc.out = nil, 0, nil
	if how == 3 {
		// nothing is left of them on a connection with a new session
		lose(c, nc)
		handshake(c, nc, nil)
		nc.out = nil
		p.PacketIdentifier = 0
		vnd.Assert(c.Publish(ctx, p) == nil && len(nc.packets()) == 1, "quota: a message is sent in a new session")
		vnd.Cover("new session")
		return
	}
	// each that is completed makes room for one
	typ, code := byte(4), byte(0)
	switch how {
	case 2:
		typ, code = 5, 0x80
	case 1:
		typ = 7
		nc.feed(ack(5, uint16(n), 0)...)
		vnd.Assert(poll(c) == nil, "quota: PUBREC is processed")
		nc.out = nil
	}
	nc.feed(ack(typ, uint16(n), code)...)
	vnd.Assert(poll(c) == nil, "quota: acknowledgement is processed")
	p.PacketIdentifier = 0
	vnd.Assert(c.Publish(ctx, p) == nil && len(nc.packets()) == 1, "quota: a message within 65,535 is sent")
}

// fullStore holds something under every identifier but one, or every one.
type fullStore struct{ free uint16 }

func (s *fullStore) Store(id uint16, p any) error { return nil }
func (s *fullStore) Get(id uint16) (any, error) {
	if id == s.free {
		return nil, storage.ErrNoEntry
	}
	return message(1), nil
}
func (s *fullStore) Drop(id uint16) error { return nil }

// HAllUsed: one packet identifier is left, or none.
func HAllUsed() {
	nc := newConn()
	c := online(nc, nil, rm(1)...)
	s := &fullStore{free: []uint16{0, 1, 300, 65535}[vnd.Choice("free", 4)]}
	c.SetStorage(s)
	failed := vnd.Choice("failed before", 3)
	first := uint32(1)
	if failed == 0 {
		first = []uint32{0, 1, 301, 65535, 0xfffe012c}[vnd.Choice("rng", 5)]
	}
	c.SetRngFn(func() uint32 { return first })
	ctx, cancel := within(time.Second)
	defer cancel()
	k := vnd.Choice("what", 4)
	if failed > 0 {
		// requests that were not sent use no identifier
		vnd.Assume(s.free != 0)
		nc.failOp, nc.failAt = opWrite, nc.ops[opWrite]+1
		var err error
		if failed == 1 {
			err = c.Subscribe(ctx, []mqtt.Topic{filter("b")})
		} else {
			err = c.Unsubscribe(ctx, []string{"b"})
		}
		vnd.Assert(err != nil, "identifier: a failure to send is reported")
		vnd.Assume(c.IsConnected())
		vnd.Cover("failed before")
	}
	w := len(nc.packets())
	done := make(chan error, 1)
	go func() {
		switch k {
		case 0, 1:
			done <- c.Publish(ctx, message(byte(k+1)))
		case 2:
			done <- c.Subscribe(ctx, []mqtt.Topic{filter("a")})
		case 3:
			done <- c.Unsubscribe(ctx, []string{"a"})
		}
	}()
	vnd.Settle()
	out := nc.since(w)
	if s.free == 0 {
		vnd.Assert(len(out) == 0, "identifier: nothing is sent when all are in use")
		vnd.Assert(<-done != nil, "identifier: the call fails when all are in use")
		vnd.Cover("none left")
		vnd.Assert(c.Publish(ctx, message(0)) == nil && len(nc.since(w)) == 1, "identifier: a message of QoS 0 needs none")
		w = len(nc.packets())
		// the client goes on as soon as one is free
		s.free = 7
		vnd.Assert(c.Publish(ctx, message(1)) == nil, "identifier: the client goes on when one is free again")
		out = nc.since(w)
	}
	vnd.Assert(len(out) == 1, "identifier: the packet is sent")
	for _, p := range out {
		if p.typ == 3 {
			p.c.Str()
		}
		vnd.Assert(p.c.U16() == s.free, "identifier: not in use")
		vnd.Cover("one left")
	}
}

// HQuotaWakes: two publishes wait, or are about to, when room is made for both.
func HQuotaWakes() {
	nc := newConn()
	c := online(nc, nil, rm(2)...)
	ids(c, 1)
	ctx, cancel := within(time.Hour)
	defer cancel()
	for i := 0; i < 2; i++ {
		vnd.Assert(c.Publish(ctx, message(1)) == nil, "quota: a message within the limit is sent")
	}
	nc.out = nil
	done := make(chan error, 2)
	vnd.Explore(vnd.Param("preempt", 2))
	vnd.SkipYields()
	for i := 0; i < 2; i++ {
		go func() { done <- c.Publish(ctx, message(1)) }()
	}
	vnd.Yield()
	for i := 0; i < 2; i++ {
		nc.feed(ack(4, uint16(i+1), 0)...)
		vnd.Assert(poll(c) == nil, "quota: acknowledgement is processed")
	}
	for i := 0; i < 2; i++ {
		vnd.Assert(<-done == nil, "quota: every held publish is sent in the end")
	}
	vnd.Assert(len(nc.packets()) == 2, "quota: every held publish is sent in the end")
	vnd.Cover("both sent")
}
