package sym

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

func (m *Machine) callee(th *Thread, fr *Frame, c *ssa.CallCommon) (*Fn, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	var f *Fn
	if c.IsInvoke() {
		i, ok := m.get(fr, c.Value).(Iface)
		if !ok {
			m.unsupported("invoke on %T", m.get(fr, c.Value))
		}
		if i.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if nt, ok := i.v.(*nativeObj); ok {
			nm := c.Method.Name()
			f = &Fn{nv: func(m *Machine, th *Thread, a []Value) Value { return nt.call(m, nm, a) }}
		} else {
			f = &Fn{fn: m.method(i.t, c.Method)}
			args = append(args, i.v)
		}
	} else {
		switch v := m.get(fr, c.Value).(type) {
		case *Fn:
			f = v
		default:
			m.unsupported("call of %T", v)
		}
	}
	for _, a := range c.Args {
		args = append(args, m.get(fr, a))
	}
	return f, args
}

// nativeObj is a value implemented by the engine.
type nativeObj struct {
	call func(m *Machine, method string, a []Value) Value
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	key := t.String() + "|" + meth.Id()
	if f, ok := m.msetCache[key]; ok {
		return f
	}
	f := m.P.lookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("no method %s on %s", meth.Name(), t)
	}
	m.msetCache[key] = f
	return f
}

func (m *Machine) callCommon(th *Thread, fr *Frame, c *ssa.CallCommon, dst *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = m.get(fr, a)
		}
		v := m.builtin(th, fr, b, c, args)
		fr.set(dst, v)
		return
	}
	f, args := m.callee(th, fr, c)
	m.call(th, f, args, dst)
}

// call starts a call on th; the result goes to register dst of the current frame.
func (m *Machine) call(th *Thread, f *Fn, args []Value, dst ssa.Value) {
	if f == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.bi != nil {
		// deferred or spawned builtin
		fr := th.frames[len(th.frames)-1]
		m.builtin(th, fr, f.bi, nil, args)
		return
	}
	if f.nv != nil {
		m.native(th, f.nv, args, dst)
		return
	}
	fn := f.fn
	if h := m.P.intrinsic(fn); h != nil {
		m.Funcs[fn]++
		m.native(th, h, args, dst)
		return
	}
	if r := m.P.redirect(fn); r != nil {
		fn = r
		f = &Fn{fn: r}
	}
	m.pushFrame(th, f, args, dst)
}

type noResult struct{}

// native runs an engine function; a noResult value means it arranged its own result.
func (m *Machine) native(th *Thread, h func(*Machine, *Thread, []Value) Value, args []Value, dst ssa.Value) {
	m.retDst = dst
	n := len(th.frames)
	v := h(m, th, args)
	if _, ok := v.(noResult); ok {
		return
	}
	if dst != nil && n > 0 {
		th.frames[n-1].set(dst, v)
	}
}

// callSync calls an interpreted function to completion; it must not block.
func (m *Machine) callSync(th *Thread, f *Fn, args ...Value) Value {
	var res Value
	done := false
	n := len(th.frames)
	m.call(th, f, args, nil)
	if len(th.frames) == n {
		m.unsupported("nested native call")
	}
	th.frames[len(th.frames)-1].onRet = func(v Value) { res, done = v, true }
	for !done {
		m.steps++
		if m.steps > m.Lim.Steps {
			panic(pathStop{EndSteps, "no end in nested call"})
		}
		m.exec(th)
		if th.ready != nil {
			m.unsupported("blocking in a nested call")
		}
	}
	return res
}

// tail continues with another interpreted call whose result replaces the native one.
func (m *Machine) tail(th *Thread, f *Fn, args ...Value) Value {
	m.call(th, f, args, m.retDst)
	return noResult{}
}

func (m *Machine) builtin(th *Thread, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return m.strLen(x)
		case Slice:
			return m.slen(x)
		case *Map:
			if x == nil {
				return m.k64(0)
			}
			m.mapAccess(th, x, false)
			return m.ki(len(x.ents))
		case *Chan:
			if x == nil {
				return m.k64(0)
			}
			return m.ki(len(x.buf))
		case ArrV:
			return m.ki(len(x))
		case Ptr:
			return x.c.arr.n
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.scap(x)
		case *Chan:
			if x == nil {
				return m.k64(0)
			}
			return m.ki(x.cap)
		case ArrV:
			return m.ki(len(x))
		case Ptr:
			return x.c.arr.n
		}
	case "append":
		return m.appendOp(args[0].(Slice), args[1], c)
	case "copy":
		return m.copyOp(args[0].(Slice), args[1])
	case "delete":
		if x := args[0].(*Map); x != nil {
			m.mapAccess(th, x, true)
			m.mapDel(x, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				m.mapAccess(th, x, true)
				m.mapJournal(x)
				for _, e := range x.ents {
					e.gone = true
				}
				x.ents, x.idx = nil, nil
			}
		case Slice:
			n := m.concretize(m.slen(x), "clear")
			for i := uint64(0); i < n; i++ {
				m.setAt(x.a, m.concretize(x.off, "clear")+i, m.zero(x.a.et))
			}
		}
		return nil
	case "close":
		m.chanClose(th, args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.panic != nil && !fr.deferOf.panic.recovered {
			fr.deferOf.panic.recovered = true
			return fr.deferOf.panic.val
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if s, ok := r.(Str); ok {
				lt := m.strLt(a.(Str), s)
				if m.branch(lt) == (b.Name() == "min") {
					r = a
				}
				continue
			}
			x, y := r.(*term.Term), a.(*term.Term)
			var lt *term.Term
			switch {
			case x.IsFloat():
				lt = m.c.FBin(term.FLt, y, x)
			case isSigned(c.Args[0].Type()):
				lt = m.c.Slt(y, x)
			default:
				lt = m.c.Ult(y, x)
			}
			if b.Name() == "min" {
				r = m.c.Ite(lt, y, x)
			} else {
				r = m.c.Ite(lt, x, y)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if m.ptr(args[0]).isNil() {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "Slice": // unsafe.Slice
		p := m.ptr(args[0])
		n := args[1].(*term.Term)
		if n.W < 64 {
			n = m.toInt64(c.Args[1].Type(), n)
		}
		if p.isNil() {
			return Slice{}
		}
		if p.c != nil {
			if !n.IsConst() || n.K > 1 {
				if n.IsConst() {
					// reported if the compiled code shows an effect
					m.violate("assert", "memory: unsafe.Slice reaches beyond a variable", m.model)
					panic(pathStop{EndViolation, "memory"})
				}
				m.unsupported("unsafe.Slice of a single variable with length over 1")
			}
			a := &Array{et: p.c.t, n: m.k64(1), alias: p.c, comp: isComposite(p.c.t), keep: p.c.keep}
			return Slice{a: a, off: m.k64(0), len: n, cap: n}
		}
		return Slice{a: p.a, off: p.i, len: n, cap: n}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		return m.elemPtr(s.a, m.soff(s))
	case "String": // unsafe.String
		p := m.ptr(args[0])
		n := args[1].(*term.Term)
		if n.W < 64 {
			n = m.toInt64(c.Args[1].Type(), n)
		}
		if p.isNil() || n.IsK(0) {
			return Str{}
		}
		if p.c != nil {
			a := &Array{et: p.c.t, n: m.k64(1), alias: p.c, keep: p.c.keep}
			return Str{a: a, off: m.k64(0), len: n}
		}
		return Str{a: p.a, off: p.i, len: n}
	case "StringData":
		s := args[0].(Str)
		a, off, n := m.strArr(s)
		if n.IsK(0) {
			return Ptr{}
		}
		return Ptr{a: a, i: off}
	case "Add":
		p := m.ptr(args[0])
		if p.a != nil && isComposite(p.a.et) == false && widthOf(p.a.et.Underlying().(*types.Basic)) == 8 {
			return UPtr{Ptr{a: p.a, i: m.c.Bin(term.Add, p.i, args[1].(*term.Term))}}
		}
	}
	m.unsupported("builtin %s", b.Name())
	return nil
}

func (m *Machine) appendOp(s Slice, y Value, c *ssa.CallCommon) Value {
	var src Slice
	switch v := y.(type) {
	case Slice:
		src = v
	case Str:
		src = m.strView(v)
	case nil:
		return s
	default:
		m.unsupported("append of %T", y)
	}
	sl := m.concretize(m.slen(src), "append length")
	if sl == 0 {
		return s
	}
	et := src.a.et
	if s.a != nil {
		et = s.a.et
	} else if c != nil {
		et = c.Args[0].Type().Underlying().(*types.Slice).Elem()
	}
	n := m.concretize(m.slen(s), "append base length")
	cp := m.concretize(m.scap(s), "append capacity")
	if n+sl > 1<<20 {
		m.incomplete("append to %d elements", n+sl)
	}
	so := m.concretize(m.soff(src), "append offset")
	m.rangeAccess(m.cur, src, so, sl, false)
	vals := make([]Value, sl)
	for i := range vals {
		vals[i] = m.at(src.a, so+uint64(i))
	}
	if n+sl <= cp {
		o := m.concretize(m.soff(s), "append offset")
		m.rangeAccess(m.cur, s, o+n, sl, true)
		for i, v := range vals {
			m.setAt(s.a, o+n+uint64(i), v)
		}
		return Slice{a: s.a, off: s.off, len: m.k64(n + sl), cap: s.cap}
	}
	nc := n + sl
	if 2*cp > nc {
		nc = 2 * cp
	}
	if nc < 8 && !isComposite(et) {
		nc = 8
	}
	a := m.newArray(et, m.k64(nc))
	o := uint64(0)
	if n > 0 {
		o = m.concretize(m.soff(s), "append offset")
		m.rangeAccess(m.cur, s, o, n, false)
	}
	for i := uint64(0); i < n; i++ {
		m.rawSet(a, i, m.at(s.a, o+i))
	}
	for i, v := range vals {
		m.rawSet(a, n+uint64(i), v)
	}
	return Slice{a: a, off: m.k64(0), len: m.k64(n + sl), cap: m.k64(nc)}
}

// rawSet stores into a fresh array.
func (m *Machine) rawSet(a *Array, i uint64, v Value) {
	if a.comp {
		m.store(m.cellAt(a, i), v)
	} else {
		a.put(i, v)
	}
}

func (m *Machine) copyOp(d Slice, y Value) Value {
	var src Slice
	switch v := y.(type) {
	case Slice:
		src = v
	case Str:
		src = m.strView(v)
	}
	ld, ls := m.slen(d), m.slen(src)
	n := m.c.Ite(m.c.Slt(ld, ls), ld, ls)
	k := m.concretize(n, "copy length")
	if k == 0 {
		return m.k64(0)
	}
	if k > 1<<20 {
		m.incomplete("copy of %d elements", k)
	}
	do, so := m.concretize(d.off, "copy offset"), m.concretize(src.off, "copy offset")
	m.rangeAccess(m.cur, src, so, k, false)
	m.rangeAccess(m.cur, d, do, k, true)
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = m.at(src.a, so+uint64(i))
	}
	for i, v := range vals {
		m.setAt(d.a, do+uint64(i), v)
	}
	return m.k64(k)
}

// fnName is the canonical name used by the intrinsic tables.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.ReplaceAll(fn.String(), "command-line-arguments.", "")
}
