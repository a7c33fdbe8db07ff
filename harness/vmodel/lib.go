package vmodel

import (
	"context"
	"sync"
)

func length(x any) int      { return 0 }
func swap(x any, i, j int) {}

// SortSlice is sort.Slice, by insertion.
func SortSlice(x any, less func(i, j int) bool) {
	n := length(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}

// SliceIsSorted is sort.SliceIsSorted.
func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := length(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

// WithValue is context.WithValue.
func WithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	return &valueCtx{parent, key, val}
}

// the contents of the sync.Maps
type table struct {
	mu sync.Mutex
	m  map[any]any
}

var (
	tablesMu sync.Mutex
	tables   map[*sync.Map]*table
)

func tableOf(m *sync.Map) *table {
	tablesMu.Lock()
	defer tablesMu.Unlock()
	if tables == nil {
		tables = map[*sync.Map]*table{}
	}
	t := tables[m]
	if t == nil {
		t = &table{m: map[any]any{}}
		tables[m] = t
	}
	return t
}

func MapLoad(m *sync.Map, key any) (any, bool) {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.m[key]
	return v, ok
}

func MapStore(m *sync.Map, key, value any) {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.m[key] = value
}

func MapClear(m *sync.Map) {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.m = map[any]any{}
}

func MapLoadOrStore(m *sync.Map, key, value any) (any, bool) {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	if v, ok := t.m[key]; ok {
		return v, true
	}
	t.m[key] = value
	return value, false
}

func MapLoadAndDelete(m *sync.Map, key any) (any, bool) {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.m[key]
	delete(t.m, key)
	return v, ok
}

func MapDelete(m *sync.Map, key any) { MapLoadAndDelete(m, key) }

func MapSwap(m *sync.Map, key, value any) (any, bool) {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.m[key]
	t.m[key] = value
	return v, ok
}

func MapCompareAndSwap(m *sync.Map, key, old, new any) bool {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	if v, ok := t.m[key]; !ok || v != old {
		return false
	}
	t.m[key] = new
	return true
}

func MapCompareAndDelete(m *sync.Map, key, old any) bool {
	t := tableOf(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	if v, ok := t.m[key]; !ok || v != old {
		return false
	}
	delete(t.m, key)
	return true
}

func MapRange(m *sync.Map, f func(key, value any) bool) {
	t := tableOf(m)
	t.mu.Lock()
	var ks, vs []any
	for k, v := range t.m {
		ks, vs = append(ks, k), append(vs, v)
	}
	t.mu.Unlock()
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}
