//go:build !vsym

package vrt

import (
	"context"
	"time"
	"unsafe"
)

type ctx struct {
	parent   context.Context
	done     chan struct{}
	deadline time.Time
	has      bool
	err      error
	kids     []*ctx
	t        *timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{}           { return c.done }
func (c *ctx) Err() error                      { acquire(unsafe.Pointer(c)); return c.err }
func (c *ctx) Value(k interface{}) interface{} { return c.parent.Value(k) }
func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	release(unsafe.Pointer(c))
	Close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
	if c.t != nil {
		c.t.dead = true
	}
}

func newCtx(parent context.Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if d := parent.Done(); d != nil {
		if parent.Err() != nil {
			c.cancel(parent.Err())
		} else {
			Go(func() {
				s := NewSel()
				SelRecv(s, d)
				SelRecv(s, (<-chan struct{})(c.done))
				if s.Wait(false) == 0 {
					c.cancel(parent.Err())
				}
			})
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(context.Canceled) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.deadline, c.has = d, true
	if Until(d) <= 0 {
		c.cancel(context.DeadlineExceeded)
	} else if c.err == nil {
		c.t = addTimer(Until(d), 0, func() { spawnQuiet(func() { c.cancel(context.DeadlineExceeded) }) })
	}
	return c, func() { c.cancel(context.Canceled) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}
