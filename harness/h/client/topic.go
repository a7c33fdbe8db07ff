package client

import (
	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/vnd"
)

// matches is the matching rule of MQTT 5.0 section 4.7 as one formula over the
// bytes of the two strings: m[i][j] says that f[i:] matches t[j:].
func matches(f, t []byte) bool {
	m := make([][]bool, len(f)+1)
	for i := range m {
		m[i] = make([]bool, len(t)+1)
	}
	m[len(f)][len(t)] = true
	for i := len(f) - 1; i >= 0; i-- {
		for j := len(t); j >= 0; j-- {
			// '#' takes the rest
			hash := false
			if i == len(f)-1 {
				hash = f[i] == '#'
			}
			// "/#" also matches the parent level
			parent := false
			if i == len(f)-2 && j == len(t) {
				parent = vnd.And(f[i] == '/', f[i+1] == '#')
			}
			// '+' takes one level, which may be empty
			plus := false
			level := true
			for k := j; k <= len(t); k++ {
				end := true
				if k < len(t) {
					end = t[k] == '/'
				}
				plus = vnd.Or(plus, vnd.And(level, vnd.And(end, m[i+1][k])))
				if k < len(t) {
					level = vnd.And(level, t[k] != '/')
				}
			}
			plain := false
			if j < len(t) {
				plain = vnd.And(f[i] == t[j], m[i+1][j+1])
			}
			m[i][j] = vnd.Or(vnd.Or(hash, parent), vnd.IteBool(f[i] == '+', plus, vnd.And(f[i] != '#', plain)))
		}
	}
	r := m[0][0]
	if len(t) > 0 && len(f) > 0 {
		// wildcards at the start do not match topics that begin with $
		r = vnd.And(r, vnd.Not(vnd.And(t[0] == '$', vnd.Or(f[0] == '#', f[0] == '+'))))
	}
	return r
}

// validFilter: wildcards occupy whole levels and '#' is last.
func validFilter(f []byte) bool {
	ok := len(f) > 0
	for i, b := range f {
		first, last := true, true
		if i > 0 {
			first = f[i-1] == '/'
		}
		if i < len(f)-1 {
			last = f[i+1] == '/'
		}
		ok = vnd.And(ok, vnd.Implies(b == '+', vnd.And(first, last)))
		ok = vnd.And(ok, vnd.Implies(b == '#', vnd.And(first, i == len(f)-1)))
		ok = vnd.And(ok, b != 0)
	}
	return ok
}

func validTopic(t []byte) bool {
	ok := len(t) > 0
	for _, b := range t {
		ok = vnd.And(ok, vnd.And(b != '+', vnd.And(b != '#', b != 0)))
	}
	return ok
}

// delivered subscribes to the filter and tells whether a message with the topic
// reaches the channel bound to it.
func delivered(t, f string) bool {
	nc := newConn()
	c := online(nc, nil)
	ch := c.CreateEventChannel(1)
	subscribe(c, nc, []mqtt.Topic{bound(f, ch)}, 0)
	empty(ch)
	nc.feed(publish(0, t, 0, 1)...)
	vnd.Assert(poll(c) == nil, "topic: a message is received")
	_, ok := drain(ch)
	vnd.Assert(ok == mqtt.VerifMatchTopic(t, f), "topic: a message is delivered when its topic matches")
	return ok
}

// HShared: a shared subscription gets what its filter matches.
func HShared() {
	n := vnd.Param("len", 3)
	f := vnd.Bytes("filter", 1+vnd.Choice("len.filter", n))
	t := vnd.Bytes("topic", 1+vnd.Choice("len.topic", n))
	g := vnd.Bytes("group", 1+vnd.Choice("len.group", 2))
	vnd.Assume(validFilter(f))
	vnd.Assume(validTopic(t))
	vnd.Assume(validTopic(g))
	for _, b := range g {
		vnd.Assume(b != '/')
	}
	want := matches(f, t)
	if delivered(string(t), "$share/"+string(g)+"/"+string(f)) {
		vnd.Assert(want, "topic: a topic that does not match the filter is not delivered to a shared subscription")
		vnd.Cover("match")
	} else {
		vnd.Assert(vnd.Not(want), "topic: a topic that matches the filter is delivered to a shared subscription")
		vnd.Cover("no match")
	}
}

// HMatch: every valid filter and topic up to the bound.
func HMatch() {
	n := vnd.Param("len", 4)
	f := vnd.Bytes("filter", 1+vnd.Choice("len.filter", n))
	t := vnd.Bytes("topic", 1+vnd.Choice("len.topic", n))
	vnd.Assume(validFilter(f))
	vnd.Assume(validTopic(t))
	got := delivered(string(t), string(f))
	want := matches(f, t)
	if got {
		vnd.Assert(want, "topic: a topic that does not match the filter is not delivered")
		vnd.Cover("match")
	} else {
		vnd.Assert(vnd.Not(want), "topic: a topic that matches the filter is delivered")
		vnd.Cover("no match")
	}
}

// HMatchAny: any filter and topic at all, valid or not: the decision is made
// without a crash.
func HMatchAny() {
	n := vnd.Param("len", 3)
	f := vnd.Bytes("filter", vnd.Choice("len.filter", n+1))
	t := vnd.Bytes("topic", vnd.Choice("len.topic", n+1))
	mqtt.VerifMatchTopic(string(t), string(f))
	vnd.Assert(true, "topic: matching ends without a crash")
}

// HMatchLong: filters that take the topic literally but for one wildcard
// level, at sizes beyond the exhaustive bound.
func HMatchLong() {
	n := vnd.Param("long", 12)
	t := vnd.Bytes("topic", n)
	vnd.Assume(validTopic(t))
	vnd.Assume(t[0] != '$')
	cut := vnd.Choice("cut", n)
	var f []byte
	f = append(f, t[:cut]...)
	switch vnd.Choice("form", 4) {
	case 0: // literal
		f = append(f, t[cut:]...)
		vnd.Assert(delivered(string(t), string(f)), "topic: a topic matches itself")
	case 1: // literal that differs in one byte
		b := vnd.Byte("other")
		vnd.Assume(vnd.And(b != t[cut], vnd.And(b != '+', vnd.And(b != '#', b != 0))))
		f = append(append(f, b), t[cut+1:]...)
		vnd.Assert(!delivered(string(t), string(f)), "topic: a different topic does not match")
	case 2: // the levels from here on
		if cut > 0 {
			vnd.Assume(t[cut-1] == '/')
		}
		f = append(f, '#')
		vnd.Assert(delivered(string(t), string(f)), "topic: # matches all levels below")
	case 3: // one level
		if cut > 0 {
			vnd.Assume(t[cut-1] == '/')
		}
		end := cut + vnd.Choice("level", n-cut+1)
		for k := cut; k < end; k++ {
			vnd.Assume(t[k] != '/')
		}
		if end < n {
			vnd.Assume(t[end] == '/')
		}
		f = append(append(f, '+'), t[end:]...)
		vnd.Assert(delivered(string(t), string(f)), "topic: + matches one level")
	}
}

// levels gives up to max levels joined by slashes; each is empty, any one byte,
// or, in a filter, a wildcard.
func levels(name string, max int, filter bool) []byte {
	var s []byte
	n := 1 + vnd.Choice(name+".levels", max)
	kinds := 2
	if filter {
		kinds = 3
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s = append(s, '/')
		}
		k := kinds
		if filter && i == n-1 {
			k++
		}
		switch vnd.Choice(name+".kind", k) {
		case 1:
			b := vnd.Byte(name)
			vnd.Assume(vnd.And(vnd.And(b != '/', b != 0), vnd.And(b != '+', b != '#')))
			s = append(s, b)
		case 2:
			s = append(s, '+')
		case 3:
			s = append(s, '#')
		}
	}
	return s
}

// HMatchLevels: filters and topics of several levels.
func HMatchLevels() {
	n := vnd.Param("levels", 4)
	f := levels("filter", n, true)
	t := levels("topic", n, false)
	vnd.Assume(len(f) > 0 && len(t) > 0)
	want := matches(f, t)
	if mqtt.VerifMatchTopic(string(t), string(f)) {
		vnd.Assert(want, "topic: a topic that does not match the filter is not delivered")
		vnd.Cover("match")
	} else {
		vnd.Assert(vnd.Not(want), "topic: a topic that matches the filter is delivered")
		vnd.Cover("no match")
	}
}
