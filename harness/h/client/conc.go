package client

import (
	"time"

	"github.com/waj334/tinygo-mqtt/h/ref"
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// server answers everything a client writes.
func server(nc *conn) {
	nc.onWrite = func(b []byte) {
		switch b[0] >> 4 {
		case 1:
			nc.feed(connack(0, 0, rm(1)...)...)
		case 3:
			n := 2 + 2 + (int(b[2])<<8 | int(b[3]))
			switch b[0] >> 1 & 3 {
			case 1:
				nc.feed(ack(4, uint16(b[n])<<8|uint16(b[n+1]), 0)...)
			case 2:
				nc.feed(ack(5, uint16(b[n])<<8|uint16(b[n+1]), 0)...)
			}
		case 6:
			nc.feed(ack(7, uint16(b[2])<<8|uint16(b[3]), 0)...)
		case 8:
			nc.feed(acks(9, uint16(b[2])<<8|uint16(b[3]), 0)...)
		case 10:
			nc.feed(acks(11, uint16(b[2])<<8|uint16(b[3]), 0)...)
		case 12:
			nc.feed(0xD0, 0)
		}
	}
}

// operation runs the k-th kind of call of a program.
func operation(k int, c *mqtt.Client) error {
	ctx, cancel := within(time.Hour)
	defer cancel()
	switch k {
	case 0:
		return c.Publish(ctx, message(0))
	case 1:
		return c.Publish(ctx, message(1))
	case 2:
		return c.Publish(ctx, message(2))
	case 3:
		return c.Subscribe(ctx, []mqtt.Topic{filter("t")})
	case 4:
		return c.Unsubscribe(ctx, []string{"t"})
	case 5:
		return c.KeepAlive()
	case 6:
		return c.Disconnect(ctx, false)
	}
	return nil
}

// HPairs: two calls on two goroutines while a third polls. All calls end,
// with success unless the client was disconnected, and what is written is a
// sequence of whole packets.
func HPairs() {
	vnd.Races()
	nc := newConn()
	c := online(nc, nil, rm(1)...)
	ids(c, 1)
	server(nc)
	nc.points = vnd.Param("points", 0) == 1
	x := vnd.Choice("first", 6)
	y := x + vnd.Choice("second", 7-x)
	if vnd.Choice("storage", 2) == 1 {
		c.SetStorage(&store{})
	}
	done := make(chan bool, 2)
	vnd.Explore(vnd.Param("preempt", 0))
	for _, k := range []int{x, y} {
		k := k
		go func() {
			err := operation(k, c)
			if y != 6 {
				vnd.Assert(err == nil, "threads: the call succeeds")
			}
			done <- true
		}()
	}
	stop := make(chan bool)
	gone := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				close(gone)
				return
			default:
			}
			err := poll(c)
			if y != 6 {
				vnd.Assert(err == nil, "threads: polling succeeds")
			}
			if err != nil {
				<-stop
				close(gone)
				return
			}
			vnd.Yield()
		}
	}()
	<-done
	<-done
	close(stop)
	<-gone
	nc.packets()
	vnd.Cover("ended")
}

// call runs the k-th kind of call of a program, the ones that only look at
// the client or set it up included.
func call(k int, c *mqtt.Client) {
	switch k {
	case 7:
		c.IsConnected()
	case 8:
		c.KeepAliveInterval()
	case 9:
		ch := c.CreateEventChannel(1)
		c.CloseEventChannel(ch)
	case 10:
		c.SetStorage(&store{})
	case 11:
		c.SetRngFn(func() uint32 { return 5 })
	case 12:
		ctx, cancel := within(time.Hour)
		defer cancel()
		c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 600})
	case 13:
		poll(c)
	default:
		operation(k, c)
	}
}

// HRaces: two calls on two goroutines while a third polls and a fourth reads
// the events. No two accesses to the same data, one of them a write, are
// unordered.
func HRaces() {
	vnd.Races()
	nc := newConn()
	nc.loose = true // connecting twice included
	c := online(nc, nil, rm(9)...)
	ids(c, 1)
	server(nc)
	if s := vnd.Param("store", 2); s == 1 || s == 2 && vnd.Choice("storage", 2) == 1 {
		c.SetStorage(&store{})
	}
	topics := c.CreateEventChannel(9)
	all := c.CreateEventChannel(9)
	f := filter("a")
	f.SetEventChannel(topics)
	subscribed := make(chan bool)
	go func() {
		ctx, cancel := within(time.Hour)
		defer cancel()
		c.Subscribe(ctx, []mqtt.Topic{f})
		close(subscribed)
	}()
	vnd.Settle()
	poll(c)
	<-subscribed
	switch vnd.Choice("packet", 8) {
	case 1:
		nc.feed(publish(0, "a", 0, 1)...)
	case 2:
		nc.feed(publish(2, "a", 3, 1)...)
	case 3:
		nc.feed(publish(4, "a", 4, 1)...)
		nc.feed(ack(6, 4, 0)...)
	case 4:
		nc.feed(0xD0, 0)
	case 5:
		nc.feed(0xE0, 0)
	case 6:
		nc.feed(ref.Packet(15, 0, []byte{0, 0})...)
	case 7:
		id := vnd.U16("id")
		vnd.Assume(vnd.And(id >= 2, id <= 3))
		nc.feed(ack(byte(4+vnd.Choice("kind", 4)), id, 0)...)
	}
	x := vnd.Choice("first", 14)
	y := x + vnd.Choice("second", 14-x)
	done := make(chan bool, 9)
	vnd.Explore(vnd.Param("preempt", 0))
	for _, k := range []int{x, y} {
		k := k
		go func() {
			call(k, c)
			done <- true
		}()
	}
	go func() {
		for {
			select {
			case e := <-topics.C:
				if p, ok := e.Data.(*packets.Publish); ok {
					_ = append([]byte{}, p.Payload...)
					_ = p.QoS
					_ = p.PacketIdentifier
				}
			case e := <-all.C:
				_ = e.PacketType
			}
		}
	}()
	ended := make(chan bool)
	go func() {
		for i := 0; i < 5; i++ {
			poll(c)
			vnd.Yield()
		}
		close(ended)
	}()
	<-done
	<-done
	<-ended
	vnd.Settle()
	vnd.Cover("ended")
	vnd.Assert(true, "races: every call ends")
}

// HWire: packets of concurrent calls are not mixed when the connection takes
// its time to write.
func HWire() {
	vnd.Races()
	nc := newConn()
	c := online(nc, nil, rm(9)...)
	ids(c, 1)
	nc.points = true
	x := vnd.Choice("first", 6)
	y := x + vnd.Choice("second", 6-x)
	busy := false
	nc.onWrite = func(b []byte) {
		vnd.Assert(!busy, "wire: packets are written one at a time")
		busy = true
		vnd.SchedPoint()
		busy = false
		switch b[0] >> 4 {
		case 8:
			nc.feed(acks(9, uint16(b[2])<<8|uint16(b[3]), 0)...)
		case 10:
			nc.feed(acks(11, uint16(b[2])<<8|uint16(b[3]), 0)...)
		}
	}
	nc.feed(publish(2, "a", 3)...)
	nc.feed(publish(4, "a", 4)...)
	done := make(chan bool, 3)
	vnd.Explore(vnd.Param("preempt", 0))
	for _, k := range []int{x, y} {
		k := k
		go func() {
			vnd.Assert(operation(k, c) == nil, "threads: the call succeeds")
			done <- true
		}()
	}
	ended := make(chan bool)
	go func() {
		for i := 0; i < 2 || nc.pos < len(nc.in) || len(done) < 2; i++ {
			vnd.Assert(poll(c) == nil, "threads: polling succeeds")
			vnd.Yield()
		}
		close(ended)
	}()
	<-ended
	seen := map[byte]int{}
	for _, p := range nc.since(1) {
		seen[p.typ]++
	}
	want := map[byte]int{4: 1, 5: 1}
	for _, k := range []int{x, y} {
		want[[]byte{3, 3, 3, 8, 10, 12}[k]]++
	}
	for t := byte(1); t < 16; t++ {
		vnd.Assert(seen[t] == want[t], "wire: every packet is written once")
	}
	vnd.Cover("ended")
}

// HSwitch: two calls on two goroutines while a third disconnects and connects
// again and a fourth polls. Every connection starts with a CONNECT, nothing
// follows a DISCONNECT, and each connection's quota is kept.
func HSwitch() {
	vnd.Races()
	nc := newConn()
	c := online(nc, nil, rm(1)...)
	ids(c, 1)
	server(nc)
	answer := nc.onWrite
	open := 0
	nc.onWrite = func(b []byte) {
		switch b[0] >> 4 {
		case 1:
			open = 0
		case 3:
			if b[0]>>1&3 > 0 {
				open++
			}
			vnd.Assert(open <= 1, "switch: no more unacknowledged messages than the server accepts on one connection")
			return // not answered
		}
		answer(b)
	}
	x := vnd.Choice("first", 6)
	y := x + vnd.Choice("second", 6-x)
	byServer := vnd.Choice("by the server", 2) == 1
	done := make(chan bool, 3)
	vnd.Explore(vnd.Param("preempt", 1))
	for _, k := range []int{x, y} {
		k := k
		go func() {
			operation(k, c)
			done <- true
		}()
	}
	go func() {
		if byServer {
			nc.feed(0xE0, 0)
			for c.IsConnected() {
				poll(c)
			}
		} else {
			c.Disconnect(ctx2(), false)
		}
		nc.reopen()
		err := c.Connect(ctx2(), &packets.Connect{ClientId: "id", KeepAlive: 600})
		vnd.Assert(err == nil, "switch: the client connects again")
		for i := 0; i < 4; i++ {
			poll(c)
		}
		// what waits still ends with the second connection
		c.Disconnect(ctx2(), false)
		done <- true
	}()
	<-done
	<-done
	<-done
	nc.packets()
	vnd.Cover("ended")
}

// HFaults: one failure of the connection or the storage at any point of a
// session. Every call ends, and failures are reported by the call that saw
// them.
func HFaults() {
	vnd.Races()
	nc := newConn()
	c := mqtt.NewClient(nc)
	ids(c, 1)
	s := &store{}
	c.SetStorage(s)
	server(nc)
	switch vnd.Choice("what", 6) {
	case 0:
		nc.failOp = opDeadline
	case 1:
		nc.failOp = opWrite
	case 2:
		nc.failOp = opRead
	case 3:
		nc.failOp = opClose
	case 4:
		s.failAt = 1 + vnd.Choice("at", vnd.Param("sats", 3))
	case 5:
		s.dropAt = 1 + vnd.Choice("at", vnd.Param("sats", 3))
	}
	if nc.failOp != opNone {
		nc.failAt = 1 + vnd.Choice("at", vnd.Param("ats", 14))
	}
	ctx, cancel := within(time.Hour)
	defer cancel()
	for round := 0; round < 2; round++ {
		c.Connect(ctx, &packets.Connect{ClientId: "id", KeepAlive: 600})
		k := vnd.Choice("operation", 6)
		async := k == 3 || k == 4
		if async {
			done := make(chan bool, 1)
			go func() {
				short, cancel := within(3 * time.Second)
				defer cancel()
				if k == 3 {
					c.Subscribe(short, []mqtt.Topic{filter("t")})
				} else {
					c.Unsubscribe(short, []string{"t"})
				}
				done <- true
			}()
			vnd.Settle()
			poll(c)
			<-done
		} else {
			operation(k, c)
		}
		nc.feed(publish(4, "a", 9)...)
		for i := 0; i < 4; i++ {
			poll(c)
		}
		nc.feed(ack(6, 9, 0)...)
		poll(c)
		c.Disconnect(ctx, false)
		nc.reopen()
	}
	vnd.Cover("ended")
	vnd.Assert(true, "faults: every call ends")
}
