package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

type deferred struct {
	fn   *Fn
	args []Value
}

type panicRec struct {
	val       Value
	recovered bool
	where     string
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	env     []Value
	fv      []Value
	defers  []deferred
	dst     ssa.Value
	result  Value
	panic   *panicRec
	deferOf *Frame
	onRet   func(Value)
}

type Thread struct {
	id     int
	frames []*Frame
	ready  func() bool
	resume func()
	why    string
	done   bool
	yield  bool
	sleep  *term.Term
	vc     vclock
}

func (m *Machine) infoOf(fn *ssa.Function) *fnInfo {
	if fi := m.fninfo[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.fninfo[fn] = fi
	return fi
}

func (m *Machine) pushFrame(th *Thread, f *Fn, args []Value, dst ssa.Value) *Frame {
	fn := f.fn
	if m.fninfo[fn] == nil {
		m.P.build(fn) // waits for another worker that is building the package
		if fn.Blocks == nil {
			m.unsupported("no body for %s", fn)
		}
	}
	if len(th.frames) > 400 {
		m.incomplete("call depth over 400")
	}
	m.Funcs[fn]++
	fi := m.infoOf(fn)
	fr := &Frame{fn: fn, info: fi, block: fn.Blocks[0], env: make([]Value, fi.n), fv: f.fv, dst: dst}
	copy(fr.env, args)
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = f.fv[i]
	}
	th.frames = append(th.frames, fr)
	return fr
}

func (m *Machine) get(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return Ptr{c: m.global(x)}
	case *ssa.Function:
		return &Fn{fn: x}
	case *ssa.Builtin:
		return &Fn{bi: x}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("engine: no register for %s in %s", v.Name(), fr.fn))
	}
	r := fr.env[i]
	if p, ok := r.(Poison); ok && m.tolerant == 0 {
		m.unsupported("use of unmodelled value (%s)", p.why)
	}
	return r
}

func (fr *Frame) set(v ssa.Value, x Value) {
	fr.env[fr.info.idx[v]] = x
}

func (m *Machine) term(fr *Frame, v ssa.Value) *term.Term {
	x := m.get(fr, v)
	t, ok := x.(*term.Term)
	if !ok {
		m.unsupported("scalar expected, have %T for %s", x, v)
	}
	return t
}

func (m *Machine) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return m.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		m.unsupported("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return Str{s: string(rune(n))}
		}
		return Str{s: constant.StringVal(x.Value)}
	case b.Info()&types.IsInteger != 0:
		w := widthOf(b)
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return m.c.Const(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return m.c.Const(u, w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		return m.c.Float(f, widthOf(b))
	}
	m.unsupported("constant of type %s", t)
	return nil
}

// global returns the cell of a package variable, initialising its package lazily.
func (m *Machine) global(g *ssa.Global) *Cell {
	if g.Name() != "init$guard" {
		m.ensureInit(g.Pkg)
	}
	c := m.globals[g]
	if c == nil {
		m.keepMode++
		c = m.newCell(g.Type().(*types.Pointer).Elem())
		m.keepMode--
		m.globals[g] = c
	}
	return c
}

func (m *Machine) initModule(p *ssa.Package) { m.ensureInit(p) }

// ensureInit runs a package's variable initialisers once per machine. Imported
// packages are initialised on first use. What cannot be executed is poisoned.
func (m *Machine) ensureInit(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	m.P.buildPkg(p)
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	saveCur, saveTh, saveSteps := m.cur, m.threads, m.steps
	saveTol := m.tolerant
	m.keepMode++
	th := &Thread{id: -1}
	m.cur = th
	m.steps = 0
	if !m.P.inModule(p) {
		m.tolerant++
	}
	m.pushFrame(th, &Fn{fn: fn}, nil, nil)
	m.runInit(th)
	m.tolerant = saveTol
	m.keepMode--
	m.cur, m.threads, m.steps = saveCur, saveTh, saveSteps
	m.inited[p] = 2
}

func (m *Machine) runInit(th *Thread) {
	for len(th.frames) > 0 && !th.done {
		top := th.frames[0]
		instr := top.block.Instrs[top.pc]
		// module packages initialise their module imports eagerly, others lazily
		if call, ok := instr.(*ssa.Call); ok && len(th.frames) == 1 {
			if f := call.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != nil && f.Pkg != top.fn.Pkg && f.Synthetic != "" {
				if m.P.inModule(f.Pkg) {
					m.ensureInit(f.Pkg)
				}
				top.pc++
				continue
			}
		}
		if m.tolerant == 0 {
			m.stepInit(th)
			continue
		}
		m.steps = 0
		ok, why := m.tryInstr(th, top)
		if !ok {
			th.frames = th.frames[:1]
			th.ready, th.resume, th.done = nil, nil, false
			if v, isv := instr.(ssa.Value); isv {
				top.set(v, Poison{why})
			}
			switch in := instr.(type) {
			case *ssa.If:
				// an undecidable initialiser branch: give up on the rest
				return
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.Global); ok {
					c := m.global(g)
					c.v, c.fs, c.arr = Poison{why}, nil, nil
				}
			}
		}
	}
}

func (m *Machine) stepInit(th *Thread) {
	m.step(th)
	if th.ready != nil {
		m.unsupported("blocking operation during initialisation")
	}
}

// tryInstr runs one instruction of an initialiser including any call it makes.
func (m *Machine) tryInstr(th *Thread, top *Frame) (ok bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			if ps, is := r.(pathStop); is {
				ok, why = false, ps.msg
				return
			}
			if _, is := r.(goPanic); is {
				ok, why = false, "panic in initialiser"
				return
			}
			// engine errors on poisoned data
			ok, why = false, fmt.Sprint(r)
		}
	}()
	m.stepInit(th)
	budget := 300000
	for len(th.frames) > 1 {
		m.stepInit(th)
		if budget--; budget < 0 {
			return false, "initialiser too long"
		}
	}
	return true, ""
}

// ---- panics ----

func (m *Machine) rtPanic(msg string) {
	panic(goPanic{m.runtimeError(msg)})
}

func (m *Machine) rtPanicPlain(msg string) { m.rtPanic(msg) }

func (m *Machine) runtimeError(msg string) Value {
	if t := m.P.errType; t != nil {
		return Iface{t: t, v: Str{s: msg}}
	}
	return Iface{t: types.Typ[types.String], v: Str{s: "runtime error: " + msg}}
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case Str:
		if s, ok := m.concStr(x); ok {
			return s
		}
		return "(symbolic string)"
	case Struct:
		if len(x) == 1 {
			if s, ok := x[0].(Str); ok {
				if t, ok := m.concStr(s); ok {
					return t
				}
			}
		}
	case *term.Term:
		if x.IsConst() {
			return fmt.Sprint(x.SVal())
		}
	case Ptr:
		if x.c != nil && len(x.c.fs) >= 1 {
			if s, ok := x.c.fs[0].v.(Str); ok {
				if t, ok := m.concStr(s); ok {
					return i.t.String() + ": " + t
				}
			}
		}
	}
	return i.t.String()
}

func (m *Machine) startPanic(th *Thread, v Value) {
	fr := th.frames[len(th.frames)-1]
	fr.panic = &panicRec{val: v, where: m.loc(th)}
	m.unwind(th)
}

// unwind continues a panic at the top frame.
func (m *Machine) unwind(th *Thread) {
	for {
		fr := th.frames[len(th.frames)-1]
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			m.callDeferred(th, fr, d)
			return
		}
		rec := fr.panic
		if rec.recovered {
			fr.panic = nil
			if fr.fn.Recover != nil {
				fr.prev, fr.block, fr.pc = nil, fr.fn.Recover, 0
				return
			}
			m.frameDone(th, m.zeroResult(fr.fn))
			return
		}
		th.frames = th.frames[:len(th.frames)-1]
		if len(th.frames) == 0 {
			th.done = true
			m.violate("panic", "panic: "+m.panicText(rec.val), m.model)
			m.vios[len(m.vios)-1].Where = rec.where
			panic(pathStop{EndViolation, "panic"})
		}
		if fr.onRet != nil {
			m.unsupported("panic through a native call")
		}
		th.frames[len(th.frames)-1].panic = rec
	}
}

func (m *Machine) callDeferred(th *Thread, fr *Frame, d deferred) {
	n := len(th.frames)
	m.call(th, d.fn, d.args, nil)
	if len(th.frames) > n {
		th.frames[len(th.frames)-1].deferOf = fr
	} else if fr.panic != nil && th.ready == nil {
		// native deferred call finished at once
		m.unwind(th)
	}
}

// frameDone handles the return of the top frame.
func (m *Machine) frameDone(th *Thread, res Value) {
	fr := th.frames[len(th.frames)-1]
	th.frames = th.frames[:len(th.frames)-1]
	if fr.onRet != nil {
		fr.onRet(res)
		return
	}
	if len(th.frames) == 0 {
		th.done = true
		return
	}
	par := th.frames[len(th.frames)-1]
	if fr.deferOf == par && par.panic != nil {
		m.unwind(th)
		return
	}
	if fr.dst != nil {
		par.set(fr.dst, res)
	}
}

func (m *Machine) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

// ---- stepping ----

func (m *Machine) step(th *Thread) {
	m.steps++
	if m.steps > m.Lim.Steps {
		if m.keepMode > 0 {
			m.unsupported("initialiser too long")
		}
		panic(pathStop{EndSteps, fmt.Sprintf("no end after %d steps", m.Lim.Steps) + m.where()})
	}
	if m.keepMode > 0 {
		m.exec(th)
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(goPanic); ok {
					m.startPanic(th, gp.v)
					return
				}
				panic(r)
			}
		}()
		// run a batch under one recover frame
		for n := 0; n < 256; n++ {
			m.exec(th)
			if th.done || th.ready != nil || th.yield || len(th.frames) == 0 {
				return
			}
			m.steps++
		}
	}()
}

func (m *Machine) jump(fr *Frame, to *ssa.BasicBlock) {
	fr.prev, fr.block, fr.pc = fr.block, to, 0
	// phis are evaluated simultaneously
	var vals []Value
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if n == 0 {
			vals = vals[:0]
		}
		for i, p := range to.Preds {
			if p == fr.prev {
				vals = append(vals, m.get(fr, phi.Edges[i]))
				break
			}
		}
		n++
	}
	for i := 0; i < n; i++ {
		fr.set(to.Instrs[i].(*ssa.Phi), vals[i])
	}
	fr.pc = n
}

func (m *Machine) exec(th *Thread) {
	fr := th.frames[len(th.frames)-1]
	instr := fr.block.Instrs[fr.pc]
	fr.pc++
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.set(in, m.alloc(in.Type().(*types.Pointer).Elem()))
	case *ssa.UnOp:
		m.unop(th, fr, in)
	case *ssa.BinOp:
		fr.set(in, m.binop(in.Op, in.X.Type(), m.get(fr, in.X), m.get(fr, in.Y), in.Y.Type()))
	case *ssa.Call:
		m.callCommon(th, fr, &in.Call, in)
	case *ssa.ChangeInterface:
		fr.set(in, m.get(fr, in.X))
	case *ssa.ChangeType:
		fr.set(in, m.get(fr, in.X))
	case *ssa.Convert:
		fr.set(in, m.convert(in.Type(), in.X.Type(), m.get(fr, in.X)))
	case *ssa.MultiConvert:
		fr.set(in, m.convert(in.Type(), in.X.Type(), m.get(fr, in.X)))
	case *ssa.MakeInterface:
		fr.set(in, Iface{t: in.X.Type(), v: m.get(fr, in.X)})
	case *ssa.Extract:
		fr.set(in, m.get(fr, in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, m.slice(fr, in))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, in.X).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !m.branch(m.c.Ule(m.k64(uint64(n)), m.slen(s))) {
			m.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s.a == nil {
			fr.set(in, Ptr{})
			break
		}
		off := m.concretize(s.off, "array pointer offset")
		if off == 0 && s.a.n.IsK(uint64(n)) {
			fr.set(in, Ptr{c: &Cell{t: in.Type().Underlying().(*types.Pointer).Elem(), arr: s.a, keep: s.a.keep}})
			break
		}
		m.unsupported("slice to array pointer with offset")
	case *ssa.Return:
		var res Value
		switch len(in.Results) {
		case 0:
		case 1:
			res = m.get(fr, in.Results[0])
		default:
			tp := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				tp[i] = m.get(fr, r)
			}
			res = tp
		}
		m.frameDone(th, res)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.pc--
			m.callDeferred(th, fr, d)
		}
	case *ssa.Panic:
		panic(goPanic{m.get(fr, in.X)})
	case *ssa.Go:
		fn, args := m.callee(th, fr, &in.Call)
		m.spawn(fn, args)
		m.schedPoint(th)
	case *ssa.Defer:
		fn, args := m.callee(th, fr, &in.Call)
		target := fr
		if in.DeferStack != nil {
			if p, ok := m.get(fr, in.DeferStack).(*Frame); ok {
				target = p
			}
		}
		target.defers = append(target.defers, deferred{fn, args})
	case *ssa.Send:
		ch := m.get(fr, in.Chan).(*Chan)
		m.chanSend(th, ch, m.get(fr, in.X), func() {})
	case *ssa.Store:
		m.storePtr(th, m.ptr(m.get(fr, in.Addr)), m.get(fr, in.Val))
	case *ssa.If:
		c := m.term(fr, in.Cond)
		if m.branch(c) {
			m.jump(fr, fr.block.Succs[0])
		} else {
			m.jump(fr, fr.block.Succs[1])
		}
	case *ssa.Jump:
		m.jump(fr, fr.block.Succs[0])
	case *ssa.MakeChan:
		n := m.concretize(m.toInt64(in.Size.Type(), m.term(fr, in.Size)), "channel size")
		if int64(n) < 0 || int64(n) > maxAlloc {
			m.rtPanic("makechan: size out of range")
		}
		fr.set(in, &Chan{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem(), id: m.newChanID()})
	case *ssa.MakeMap:
		fr.set(in, &Map{t: in.Type().Underlying().(*types.Map), keep: m.keepMode > 0})
	case *ssa.MakeSlice:
		fr.set(in, m.makeSlice(fr, in))
	case *ssa.MakeClosure:
		f := &Fn{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.fv = append(f.fv, m.get(fr, b))
		}
		fr.set(in, f)
	case *ssa.FieldAddr:
		p := m.ptr(m.get(fr, in.X))
		if p.isNil() {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.c == nil || p.c.fs == nil {
			m.unsupported("field of non-struct pointer")
		}
		fr.set(in, Ptr{c: p.c.fs[in.Field]})
	case *ssa.Field:
		fr.set(in, m.get(fr, in.X).(Struct)[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, m.indexAddr(fr, in))
	case *ssa.Index:
		fr.set(in, m.index(fr, in))
	case *ssa.Lookup:
		m.lookup(fr, in)
	case *ssa.MapUpdate:
		if mp, ok := m.get(fr, in.Map).(*Map); ok {
			m.mapAccess(th, mp, true)
		}
		m.mapSet(m.get(fr, in.Map).(*Map), m.get(fr, in.Key), m.get(fr, in.Value))
	case *ssa.Range:
		switch x := m.get(fr, in.X).(type) {
		case *Map:
			m.mapAccess(th, x, false)
			it := &mapIter{m: x}
			if x != nil {
				it.left = append(it.left, x.ents...)
			}
			fr.set(in, it)
		case Str:
			fr.set(in, &strIter{s: x})
		}
	case *ssa.Next:
		m.next_(fr, in)
	case *ssa.TypeAssert:
		fr.set(in, m.typeAssert(in, m.get(fr, in.X)))
	case *ssa.Select:
		m.selectOp(th, fr, in)
	default:
		m.unsupported("instruction %T", instr)
	}
}

func (m *Machine) alloc(t types.Type) Ptr { return Ptr{c: m.newCell(t)} }

func (m *Machine) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case UPtr:
		if p.v == nil {
			return Ptr{}
		}
		return m.ptr(p.v)
	}
	m.unsupported("pointer expected, have %T", v)
	return Ptr{}
}

func (m *Machine) slen(s Slice) *term.Term {
	if s.len == nil {
		return m.k64(0)
	}
	return s.len
}

func (m *Machine) scap(s Slice) *term.Term {
	if s.cap == nil {
		return m.k64(0)
	}
	return s.cap
}

func (m *Machine) soff(s Slice) *term.Term {
	if s.off == nil {
		return m.k64(0)
	}
	return s.off
}

// toInt64 widens an integer of type t to 64 bits.
func (m *Machine) toInt64(t types.Type, x *term.Term) *term.Term {
	if x.W == 64 {
		return x
	}
	if isSigned(t) {
		return m.c.SExt(x, 64)
	}
	return m.c.ZExt(x, 64)
}

func (m *Machine) boundsCheck(i, n *term.Term) {
	if !m.branch(m.c.Ult(i, n)) {
		m.rtPanic("index out of range")
	}
}

func (m *Machine) indexAddr(fr *Frame, in *ssa.IndexAddr) Value {
	i := m.toInt64(in.Index.Type(), m.term(fr, in.Index))
	var a *Array
	off := m.k64(0)
	switch x := m.get(fr, in.X).(type) {
	case Slice:
		m.boundsCheck(i, m.slen(x))
		a, off = x.a, m.soff(x)
	case Ptr:
		if x.isNil() {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if x.c == nil || x.c.arr == nil {
			m.unsupported("index of pointer to non-array")
		}
		a = x.c.arr
		m.boundsCheck(i, a.n)
	default:
		m.unsupported("index address of %T", x)
	}
	return m.elemPtr(a, m.c.Bin(term.Add, off, i))
}

func (m *Machine) elemPtr(a *Array, i *term.Term) Ptr {
	if a.alias != nil {
		return Ptr{c: a.alias}
	}
	if a.comp {
		return Ptr{c: m.cellAt(a, m.concretize(i, "index"))}
	}
	return Ptr{a: a, i: i}
}

func (m *Machine) index(fr *Frame, in *ssa.Index) Value {
	i := m.toInt64(in.Index.Type(), m.term(fr, in.Index))
	switch x := m.get(fr, in.X).(type) {
	case ArrV:
		m.boundsCheck(i, m.ki(len(x)))
		if i.IsConst() {
			return x[i.K]
		}
		if len(x) > 0 {
			if _, ok := x[0].(*term.Term); ok {
				r := x[len(x)-1].(*term.Term)
				for k := len(x) - 2; k >= 0; k-- {
					r = m.c.Ite(m.c.Eq(i, m.ki(k)), x[k].(*term.Term), r)
				}
				return r
			}
		}
		return x[m.concretize(i, "index")]
	case Str:
		return m.strIndex(x, i)
	default:
		m.unsupported("index of %T", x)
	}
	return nil
}

func (m *Machine) strIndex(s Str, i *term.Term) Value {
	m.boundsCheck(i, m.strLen(s))
	if i.IsConst() {
		return m.strAt(s, i.K)
	}
	a, off, _ := m.strArr(s)
	return m.symRead(a, m.c.Bin(term.Add, off, i))
}

func (m *Machine) lookup(fr *Frame, in *ssa.Lookup) {
	switch x := m.get(fr, in.X).(type) {
	case Str:
		fr.set(in, m.strIndex(x, m.toInt64(in.Index.Type(), m.term(fr, in.Index))))
	case *Map:
		m.mapAccess(m.cur, x, false)
		e := m.mapFind(x, m.get(fr, in.Index))
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			fr.set(in, Tuple{v, m.c.Bool(e != nil)})
		} else {
			fr.set(in, v)
		}
	default:
		m.unsupported("lookup in %T", x)
	}
}

func (m *Machine) next_(fr *Frame, in *ssa.Next) {
	switch it := m.get(fr, in.Iter).(type) {
	case *mapIter:
		m.mapAccess(m.cur, it.m, false)
		for len(it.left) > 0 {
			k := 0
			if m.mapOrder && len(it.left) > 1 {
				k = m.choice("maporder", len(it.left))
			}
			e := it.left[k]
			if k == 0 {
				it.left = it.left[1:]
			} else {
				it.left = append(it.left[:k:k], it.left[k+1:]...)
			}
			if !e.gone {
				fr.set(in, Tuple{m.c.T, e.k, e.v})
				return
			}
		}
		mt := in.Type().(*types.Tuple)
		z := Tuple{m.c.F, nil, nil}
		for i := 1; i < 3; i++ {
			if b, ok := mt.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				z[i] = m.zero(mt.At(i).Type())
			}
		}
		fr.set(in, z)
	case *strIter:
		n := m.concretize(m.strLen(it.s), "range over string")
		if it.pos >= n {
			fr.set(in, Tuple{m.c.F, m.k64(0), m.c.Const(0, 32)})
			return
		}
		r, w := m.decodeRune(it.s, it.pos, n)
		fr.set(in, Tuple{m.c.T, m.k64(it.pos), r})
		it.pos += w
	default:
		m.unsupported("next on %T", it)
	}
}

// decodeRune decodes UTF-8 at pos of a string of n bytes.
func (m *Machine) decodeRune(s Str, pos, n uint64) (*term.Term, uint64) {
	c := m.c
	at := func(i uint64) *term.Term { return c.ZExt(m.strAt(s, i), 32) }
	b0 := at(pos)
	k := func(v uint64) *term.Term { return c.Const(v, 32) }
	in := func(b *term.Term, lo, hi uint64) bool {
		return m.branch(c.AndB(c.Ule(k(lo), b), c.Ule(b, k(hi))))
	}
	if m.branch(c.Ult(b0, k(0x80))) {
		return b0, 1
	}
	bad := k(0xFFFD)
	cont := func(b *term.Term) *term.Term { return c.Bin(term.And, b, k(0x3f)) }
	sh := func(x *term.Term, n uint64) *term.Term { return c.Bin(term.Shl, x, k(n)) }
	or := func(a, b *term.Term) *term.Term { return c.Bin(term.Or, a, b) }
	switch {
	case in(b0, 0xC2, 0xDF):
		if pos+1 >= n || !in(at(pos+1), 0x80, 0xBF) {
			return bad, 1
		}
		return or(sh(c.Bin(term.And, b0, k(0x1f)), 6), cont(at(pos+1))), 2
	case in(b0, 0xE0, 0xEF):
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.branch(c.Eq(b0, k(0xE0))) {
			lo = 0xA0
		} else if m.branch(c.Eq(b0, k(0xED))) {
			hi = 0x9F
		}
		if pos+1 >= n || !in(at(pos+1), lo, hi) || pos+2 >= n || !in(at(pos+2), 0x80, 0xBF) {
			return bad, 1
		}
		return or(sh(c.Bin(term.And, b0, k(0xf)), 12), or(sh(cont(at(pos+1)), 6), cont(at(pos+2)))), 3
	case in(b0, 0xF0, 0xF4):
		lo, hi := uint64(0x80), uint64(0xBF)
		if m.branch(c.Eq(b0, k(0xF0))) {
			lo = 0x90
		} else if m.branch(c.Eq(b0, k(0xF4))) {
			hi = 0x8F
		}
		if pos+1 >= n || !in(at(pos+1), lo, hi) || pos+2 >= n || !in(at(pos+2), 0x80, 0xBF) || pos+3 >= n || !in(at(pos+3), 0x80, 0xBF) {
			return bad, 1
		}
		return or(sh(c.Bin(term.And, b0, k(7)), 18), or(sh(cont(at(pos+1)), 12), or(sh(cont(at(pos+2)), 6), cont(at(pos+3))))), 4
	}
	return bad, 1
}

func (m *Machine) makeSlice(fr *Frame, in *ssa.MakeSlice) Value {
	et := in.Type().Underlying().(*types.Slice).Elem()
	n := m.toInt64(in.Len.Type(), m.term(fr, in.Len))
	c := m.toInt64(in.Cap.Type(), m.term(fr, in.Cap))
	return m.mkSlice(et, n, c)
}

const maxAlloc = 1 << 47

func (m *Machine) mkSlice(et types.Type, n, c *term.Term) Value {
	if !m.branch(m.c.Ult(n, m.k64(maxAlloc))) {
		m.rtPanic("makeslice: len out of range")
	}
	if n != c {
		if !m.branch(m.c.AndB(m.c.Ule(n, c), m.c.Ult(c, m.k64(maxAlloc)))) {
			m.rtPanic("makeslice: cap out of range")
		}
	}
	if isComposite(et) {
		c = m.k64(m.concretize(c, "make"))
	}
	return Slice{a: m.newArray(et, c), off: m.k64(0), len: n, cap: c}
}

func (m *Machine) slice(fr *Frame, in *ssa.Slice) Value {
	x := m.get(fr, in.X)
	idx := func(v ssa.Value) *term.Term {
		if v == nil {
			return nil
		}
		return m.toInt64(v.Type(), m.term(fr, v))
	}
	lo, hi, mx := idx(in.Low), idx(in.High), idx(in.Max)
	if lo == nil {
		lo = m.k64(0)
	}
	switch v := x.(type) {
	case Str:
		n := m.strLen(v)
		if hi == nil {
			hi = n
		}
		if !m.branch(m.c.AndB(m.c.Ule(lo, hi), m.c.Ule(hi, n))) {
			m.rtPanic("slice bounds out of range")
		}
		return m.substr(v, lo, hi)
	case Slice:
		c := m.scap(v)
		if hi == nil {
			hi = m.slen(v)
		}
		if mx == nil {
			mx = c
		}
		if !m.branch(m.c.AndB(m.c.AndB(m.c.Ule(lo, hi), m.c.Ule(hi, mx)), m.c.Ule(mx, c))) {
			m.rtPanic("slice bounds out of range")
		}
		if v.a == nil {
			return v
		}
		return Slice{a: v.a, off: m.c.Bin(term.Add, m.soff(v), lo), len: m.c.Bin(term.Sub, hi, lo), cap: m.c.Bin(term.Sub, mx, lo)}
	case Ptr:
		if v.isNil() {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if v.c == nil || v.c.arr == nil {
			m.unsupported("slice of pointer to non-array")
		}
		n := v.c.arr.n
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !m.branch(m.c.AndB(m.c.AndB(m.c.Ule(lo, hi), m.c.Ule(hi, mx)), m.c.Ule(mx, n))) {
			m.rtPanic("slice bounds out of range")
		}
		return Slice{a: v.c.arr, off: lo, len: m.c.Bin(term.Sub, hi, lo), cap: m.c.Bin(term.Sub, mx, lo)}
	}
	m.unsupported("slice of %T", x)
	return nil
}

func (m *Machine) substr(v Str, lo, hi *term.Term) Str {
	if v.a == nil {
		if lo.IsConst() && hi.IsConst() {
			return Str{s: v.s[lo.K:hi.K]}
		}
		a, off, _ := m.strArr(v)
		v = Str{a: a, off: off, len: m.ki(len(v.s))}
	}
	n := m.c.Bin(term.Sub, hi, lo)
	if n.IsK(0) {
		return Str{}
	}
	return Str{a: v.a, off: m.c.Bin(term.Add, v.off, lo), len: n}
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	i, ok := x.(Iface)
	if !ok {
		m.unsupported("type assertion on %T", x)
	}
	good := false
	it, toIface := in.AssertedType.Underlying().(*types.Interface)
	if i.t != nil {
		if toIface {
			good = m.implements(i.t, it)
		} else {
			good = types.Identical(i.t, in.AssertedType)
		}
	}
	var v Value
	if good {
		if toIface {
			v = i
		} else {
			v = i.v
		}
	} else if in.CommaOk {
		v = m.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, m.c.Bool(good)}
	}
	if !good {
		have := "nil"
		if i.t != nil {
			have = i.t.String()
		}
		m.rtPanic("interface conversion: interface is " + have + ", not " + in.AssertedType.String())
	}
	return v
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	r, ok := m.implCache[k]
	if !ok {
		r = types.Implements(t, it)
		m.implCache[k] = r
	}
	return r
}

func (m *Machine) unop(th *Thread, fr *Frame, in *ssa.UnOp) {
	switch in.Op {
	case token.MUL:
		x := m.get(fr, in.X)
		v := m.loadPtr(th, m.ptr(x))
		if p, ok := v.(Poison); ok && m.tolerant == 0 {
			m.unsupported("load of unmodelled value %s (%s)", in.X, p.why)
		}
		fr.set(in, v)
	case token.ARROW:
		ch := m.get(fr, in.X).(*Chan)
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		m.chanRecv(th, ch, et, func(v Value, ok bool) {
			if in.CommaOk {
				fr.set(in, Tuple{v, m.c.Bool(ok)})
			} else {
				fr.set(in, v)
			}
		})
	case token.NOT:
		fr.set(in, m.c.Not(m.term(fr, in.X)))
	case token.SUB:
		fr.set(in, m.c.Neg(m.term(fr, in.X)))
	case token.XOR:
		fr.set(in, m.c.BVNot(m.term(fr, in.X)))
	default:
		m.unsupported("unary %s", in.Op)
	}
}
