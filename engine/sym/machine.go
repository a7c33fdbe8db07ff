package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/solver"
	"verif/engine/term"
)

// Dec is one recorded decision of a path.
type Dec struct {
	Kind    byte // 'b' branch, 'c' concretize, 'n' choice, 'a' assert/assume, 'X' concretize, excluding
	Val     uint64
	Implied bool
	Excl    []uint64
}

// Job is a path prefix to explore, with a model known to satisfy it.
type Job struct {
	Pre   []Dec
	Model term.Model
}

// Input is one nondeterministic input of a path with its value in a model.
type Input struct {
	Name string `json:"name"`
	Val  uint64 `json:"val"`
	W    uint16 `json:"w"`
}

// Violation is a counterexample found by the solver.
type Violation struct {
	Kind   string  `json:"kind"` // assert, panic, deadlock, hang
	Msg    string  `json:"msg"`
	Where  string  `json:"where"`
	Inputs []Input `json:"inputs"`
	Trace  []string
	Obs    []string
}

// PathEnd describes how a path finished.
type PathEnd int

const (
	EndOK PathEnd = iota
	EndInfeasible
	EndViolation
	EndIncomplete
	EndUnsupported
	EndSteps
)

type pathStop struct {
	end PathEnd
	msg string
}

type goPanic struct{ v Value }

// Limits bound an exploration.
type Limits struct {
	Steps    int // instructions per path
	Conc     int // values per concretisation
	Depth    int // decisions per path
	HangIsOK bool
}

// PathResult is the outcome of one path.
type PathResult struct {
	End    PathEnd
	Msg    string
	Vio    []*Violation
	Covers []string
	Inputs []Input
	Obs    []string
	Steps  int
	Decs   int
	NVars  int
	Sched  int
	Trace  []string
	Points string // scheduling decisions offered
}

// Machine executes one harness, path by path.
type Machine struct {
	P   *Program
	c   *term.Ctx
	sv  *solver.Solver
	Lim Limits

	keepMode int
	journal  []func()
	globals  map[*ssa.Global]*Cell
	inited   map[*ssa.Package]int
	fninfo   map[*ssa.Function]*fnInfo
	Funcs    map[*ssa.Function]int
	Unsup    map[string]int
	Incompl  map[string]int

	// per path
	pre      []Dec
	decs     []Dec
	path     []*term.Term
	model    term.Model
	vars     []*term.Term
	occ      map[string]int
	push     func(Job)
	vios     []*Violation
	covers   map[string]bool
	obs      []func() string
	trace    []string
	lastConc uint64
	steps    int
	tolerant int
	scheds   int

	threads    []*Thread
	cur        *Thread
	mutexes    map[*Cell]*mutexState
	wgs        map[*Cell]*wgState
	conds      map[*Cell]*condState
	avals      map[*Cell]Value
	pools      map[*Cell][]Value
	timers     []*timer
	now        *term.Term
	params     map[string]int
	explore    int // remaining preemptions
	exploreOn  bool
	skipYields bool // Gosched may return at once
	mapOrder   bool
	retDst     ssa.Value
	chanSeq    int

	raceOn   bool
	raceFrom vclock // clock of the firing timer
	pathID   int
	atomic   int
	raced    map[string]bool
	aclk     map[interface{}]vclock
	fnKinds  map[*ssa.Function]int

	// counters over all paths
	Asserts, AssertsConst, AssertsDischarged int
	Branches, BranchesForked                 int
	Reached                                  map[string]int
	msetCache                                map[string]*ssa.Function
	implCache                                map[[2]types.Type]bool
	Deadline                                 time.Time
}

func NewMachine(p *Program, sv *solver.Solver, lim Limits, params map[string]int) *Machine {
	m := &Machine{P: p, sv: sv, Lim: lim, params: params}
	m.Funcs = map[*ssa.Function]int{}
	m.Unsup = map[string]int{}
	m.Incompl = map[string]int{}
	m.Reached = map[string]int{}
	m.fnKinds = map[*ssa.Function]int{}
	m.fninfo = map[*ssa.Function]*fnInfo{}
	m.msetCache = map[string]*ssa.Function{}
	m.implCache = map[[2]types.Type]bool{}
	m.resetCtx()
	return m
}

func (m *Machine) resetCtx() {
	m.c = term.NewCtx()
	m.globals = map[*ssa.Global]*Cell{}
	m.inited = map[*ssa.Package]int{}
	m.journal = nil
	if m.sv != nil {
		m.sv.Reset()
	}
}

func (m *Machine) unsupported(f string, a ...interface{}) {
	panic(pathStop{EndUnsupported, fmt.Sprintf(f, a...) + m.where()})
}

func (m *Machine) incomplete(f string, a ...interface{}) {
	panic(pathStop{EndIncomplete, fmt.Sprintf(f, a...) + m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return ""
	}
	return " at " + m.loc(m.cur)
}

func (m *Machine) loc(th *Thread) string {
	var out []string
	for i := len(th.frames) - 1; i >= 0 && len(out) < 4; i-- {
		fr := th.frames[i]
		s := fr.fn.String()
		if fr.pc > 0 && fr.pc <= len(fr.block.Instrs) {
			if p := fr.block.Instrs[fr.pc-1].Pos(); p.IsValid() {
				pos := m.P.Prog.Fset.Position(p)
				fn := pos.Filename
				if j := strings.LastIndexByte(fn, '/'); j >= 0 {
					fn = fn[j+1:]
				}
				s += fmt.Sprintf(" (%s:%d)", fn, pos.Line)
			}
		}
		out = append(out, s)
	}
	return strings.Join(out, " < ")
}

// ---- decisions ----

func (m *Machine) replaying() bool { return len(m.decs) < len(m.pre) }

func (m *Machine) next() (Dec, bool) {
	if i := len(m.decs); i < len(m.pre) {
		return m.pre[i], true
	}
	return Dec{}, false
}

func (m *Machine) record(d Dec) {
	m.decs = append(m.decs, d)
	if len(m.decs) > m.Lim.Depth {
		m.incomplete("more than %d decisions on a path", m.Lim.Depth)
	}
}

func (m *Machine) assertPath(t *term.Term) {
	if t.IsConst() {
		return
	}
	m.path = append(m.path, t)
}

func (m *Machine) alt(d Dec, model term.Model) {
	pre := make([]Dec, len(m.decs)+1)
	copy(pre, m.decs)
	pre[len(m.decs)] = d
	m.push(Job{pre, model})
}

func (m *Machine) query(extra *term.Term, want bool) (solver.Result, term.Model) {
	if m.keepMode > 0 {
		m.unsupported("symbolic decision during initialisation")
	}
	r, mod := m.sv.Check(m.path, extra, want)
	if r == solver.Sat && want {
		// variables not mentioned keep their previous values
		for k, v := range m.model {
			if _, ok := mod[k]; !ok {
				mod[k] = v
			}
		}
	}
	return r, mod
}

// branch decides a boolean term, forking when both outcomes are feasible.
func (m *Machine) branch(cond *term.Term) bool {
	if cond.IsConst() {
		return cond.K == 1
	}
	m.Branches++
	if d, ok := m.next(); ok {
		if d.Kind != 'b' {
			panic(fmt.Sprintf("engine: decision mismatch: have %c want b%s", d.Kind, m.where()))
		}
		m.record(d)
		b := d.Val == 1
		if !d.Implied {
			if b {
				m.assertPath(cond)
			} else {
				m.assertPath(m.c.Not(cond))
			}
		}
		return b
	}
	b := m.c.Eval(cond, m.model) == 1
	taken, other := cond, m.c.Not(cond)
	if !b {
		taken, other = other, taken
	}
	bv := uint64(0)
	if b {
		bv = 1
	}
	r, mod := m.query(other, true)
	switch r {
	case solver.Unsat:
		m.record(Dec{Kind: 'b', Val: bv, Implied: true})
		return b
	case solver.Sat:
		m.BranchesForked++
		m.alt(Dec{Kind: 'b', Val: 1 - bv}, mod)
	default:
		m.Incompl["solver could not decide a branch; one side not explored"]++
	}
	m.record(Dec{Kind: 'b', Val: bv})
	m.assertPath(taken)
	return b
}

// concretize picks a value for t, forking over all feasible values.
func (m *Machine) concretize(t *term.Term, why string) uint64 {
	if t.IsConst() {
		m.lastConc = t.K
		return t.K
	}
	if t.W == 0 {
		if m.branch(t) {
			return 1
		}
		return 0
	}
	d, ok := m.next()
	if ok && d.Kind == 'c' {
		m.record(d)
		if !d.Implied {
			m.assertPath(m.c.Eq(t, m.c.Const(d.Val, t.W)))
		}
		m.lastConc = d.Val
		return d.Val
	}
	var excl []uint64
	if ok {
		if d.Kind != 'X' {
			panic(fmt.Sprintf("engine: decision mismatch: have %c want c%s", d.Kind, m.where()))
		}
		excl = d.Excl
	}
	v := m.c.Eval(t, m.model)
	excl = append(excl[:len(excl):len(excl)], v)
	if len(excl) > m.Lim.Conc {
		m.incomplete("more than %d values for %s", m.Lim.Conc, why)
	}
	ne := m.c.T
	for _, x := range excl {
		ne = m.c.AndB(ne, m.c.Not(m.c.Eq(t, m.c.Const(x, t.W))))
	}
	implied := false
	if ne.IsFalse() {
		implied = len(excl) == 1
	} else {
		r, mod := m.query(ne, true)
		switch r {
		case solver.Sat:
			m.alt(Dec{Kind: 'X', Excl: excl}, mod)
		case solver.Unsat:
			implied = len(excl) == 1
		default:
			m.Incompl["solver could not decide a value split; rest not explored"]++
		}
	}
	m.record(Dec{Kind: 'c', Val: v, Implied: implied})
	if !implied {
		m.assertPath(m.c.Eq(t, m.c.Const(v, t.W)))
	}
	m.lastConc = v
	return v
}

// newVar makes a fresh symbolic input.
func (m *Machine) newVar(label string, w uint16) *term.Term {
	n := m.occ[label]
	m.occ[label] = n + 1
	v := m.c.Var(fmt.Sprintf("%s#%d", label, n), w)
	m.vars = append(m.vars, v)
	return v
}

// choice picks one of n alternatives (all feasible by construction).
func (m *Machine) choice(label string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.newVar(label, 32)
	if d, ok := m.next(); ok {
		if d.Kind != 'n' {
			panic(fmt.Sprintf("engine: decision mismatch: have %c want n%s", d.Kind, m.where()))
		}
		m.record(d)
		m.assertPath(m.c.Eq(v, m.c.Const(d.Val, 32)))
		return int(d.Val)
	}
	for k := n - 1; k >= 1; k-- {
		mod := make(term.Model, len(m.model)+1)
		for a, b := range m.model {
			mod[a] = b
		}
		mod[v.Name] = uint64(k)
		m.alt(Dec{Kind: 'n', Val: uint64(k)}, mod)
	}
	m.model = cloneModel(m.model)
	m.model[v.Name] = 0
	m.record(Dec{Kind: 'n', Val: 0})
	m.assertPath(m.c.Eq(v, m.c.Const(0, 32)))
	return 0
}

func cloneModel(a term.Model) term.Model {
	b := make(term.Model, len(a)+1)
	for k, v := range a {
		b[k] = v
	}
	return b
}

// assume restricts the path.
func (m *Machine) assume(cond *term.Term) {
	if cond.IsConst() {
		if cond.K == 0 {
			panic(pathStop{EndInfeasible, ""})
		}
		return
	}
	if d, ok := m.next(); ok {
		if d.Kind != 'a' {
			panic("engine: decision mismatch at assume" + m.where())
		}
		m.record(d)
		if !d.Implied {
			m.assertPath(cond)
		}
		return
	}
	if m.c.Eval(cond, m.model) == 0 {
		r, mod := m.query(cond, true)
		if r == solver.Unknown {
			m.incomplete("solver could not decide an assumption")
		}
		if r == solver.Unsat {
			panic(pathStop{EndInfeasible, ""})
		}
		m.model = mod
	}
	m.record(Dec{Kind: 'a'})
	m.assertPath(cond)
}

// assert asks the solver whether cond holds for every value on this path.
func (m *Machine) assert(cond *term.Term, msg string) {
	d, ok := m.next()
	if !ok || cond.IsConst() {
		m.Reached[msg]++
	}
	if cond.IsConst() {
		if cond.K == 1 {
			m.AssertsConst++
			m.Asserts++
			return
		}
		m.Asserts++
		m.violate("assert", msg, m.model)
		panic(pathStop{EndViolation, msg})
	}
	if ok {
		if d.Kind != 'a' {
			panic("engine: decision mismatch at assert" + m.where())
		}
		m.record(d)
		if !d.Implied {
			m.assertPath(cond)
		}
		return
	}
	m.Asserts++
	neg := m.c.Not(cond)
	if m.c.Eval(cond, m.model) == 0 {
		// the current model already refutes it; confirm with the solver
		r, mod := m.query(neg, true)
		if r == solver.Sat {
			m.violate("assert", msg, mod)
		} else {
			m.Incompl["assertion refuted by evaluation but not by the solver"]++
		}
		r, mod = m.query(cond, true)
		if r != solver.Sat {
			panic(pathStop{EndViolation, msg})
		}
		m.model = mod
		m.record(Dec{Kind: 'a'})
		m.assertPath(cond)
		return
	}
	r, mod := m.query(neg, true)
	switch r {
	case solver.Unsat:
		m.AssertsDischarged++
		m.record(Dec{Kind: 'a', Implied: true})
	case solver.Sat:
		m.violate("assert", msg, mod)
		m.record(Dec{Kind: 'a'})
		m.assertPath(cond)
	default:
		m.Incompl["solver could not decide assertion: "+msg]++
		m.record(Dec{Kind: 'a'})
		m.assertPath(cond)
	}
}

func (m *Machine) violate(kind, msg string, mod term.Model) {
	v := &Violation{Kind: kind, Msg: msg, Where: strings.TrimPrefix(m.where(), " at "), Inputs: m.inputs(mod)}
	v.Trace = append(v.Trace, m.trace...)
	m.vios = append(m.vios, v)
}

func (m *Machine) inputs(mod term.Model) []Input {
	in := make([]Input, 0, len(m.vars))
	for _, v := range m.vars {
		in = append(in, Input{v.Name, mod[v.Name], v.W})
	}
	return in
}

// RunPath executes the harness along one job.
func (m *Machine) RunPath(fn *ssa.Function, job Job, push func(Job)) (res PathResult) {
	if m.c.Size() > 6_000_000 {
		m.resetCtx()
	}
	for i := len(m.journal) - 1; i >= 0; i-- {
		m.journal[i]()
	}
	m.journal = m.journal[:0]
	m.pre, m.decs, m.path = job.Pre, m.decs[:0], m.path[:0]
	m.model = job.Model
	if m.model == nil {
		m.model = term.Model{}
	}
	m.vars, m.occ, m.push = m.vars[:0], map[string]int{}, push
	m.vios, m.covers, m.obs, m.trace = nil, map[string]bool{}, nil, nil
	m.steps, m.scheds = 0, 0
	m.threads, m.cur = nil, nil
	m.mutexes, m.wgs, m.conds = map[*Cell]*mutexState{}, map[*Cell]*wgState{}, map[*Cell]*condState{}
	m.avals, m.pools = map[*Cell]Value{}, map[*Cell][]Value{}
	m.timers = nil
	m.now = m.k64(1 << 60)
	m.explore, m.exploreOn, m.mapOrder, m.chanSeq = 0, false, false, 0
	m.skipYields = false
	m.keepMode, m.tolerant = 0, 0
	m.raceOn, m.raceFrom, m.atomic, m.raced, m.aclk = false, nil, 0, map[string]bool{}, map[interface{}]vclock{}
	m.pathID++

	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if ps, ok := r.(pathStop); ok {
				res.End, res.Msg = ps.end, ps.msg
				return
			}
			panic(r)
		}()
		m.initModule(fn.Pkg)
		m.spawn(&Fn{fn: fn}, nil)
		m.run()
	}()
	switch res.End {
	case EndIncomplete:
		m.Incompl[res.Msg]++
	case EndUnsupported:
		m.Unsup[res.Msg]++
	case EndSteps:
		if !m.Lim.HangIsOK {
			m.violate("hang", res.Msg, m.model)
		}
		m.Incompl[res.Msg]++
	}
	res.Vio = m.vios
	for k := range m.covers {
		res.Covers = append(res.Covers, k)
	}
	sort.Strings(res.Covers)
	res.Inputs = m.inputs(m.model)
	for _, f := range m.obs {
		res.Obs = append(res.Obs, f())
	}
	res.Steps, res.Decs, res.NVars, res.Sched = m.steps, len(m.decs), len(m.vars), m.scheds
	res.Trace = m.trace
	res.Points = fmt.Sprintf("%d %d %d", m.occ["preempt"], m.occ["sched"], m.occ["select"])
	return
}
