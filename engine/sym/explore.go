package sym

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/solver"
)

// Options control the exploration of one harness.
type Options struct {
	Params   map[string]int
	Lim      Limits
	Workers  int
	Time     time.Duration // wall-clock budget
	QueryMax time.Duration
	Cross    int
	MaxPaths int
	MaxVio   int
	Samples  int
	Verbose  bool
}

// Result aggregates an exploration.
type Result struct {
	Harness     string
	Paths       int
	Ended       map[string]int
	Vio         []*Violation
	Covers      map[string]int
	Reached     map[string]int
	Unsup       map[string]int
	Incompl     map[string]int
	Solver      solver.Stats
	Asserts     int
	Discharged  int
	ConstAssert int
	Branches    int
	Forks       int
	Steps       int64
	MaxDecs     int
	MaxVars     int
	Scheds      int
	Funcs       map[string]int
	FuncsUT     map[string]int
	Complete    bool // every path within the bounds was explored
	Left        int
	Samples     []PathResult
	Wall        time.Duration
	States      int
}

var endNames = map[PathEnd]string{EndOK: "ok", EndInfeasible: "infeasible", EndViolation: "violation",
	EndIncomplete: "incomplete", EndUnsupported: "unsupported", EndSteps: "steps"}

// Explore runs all paths of fn.
func Explore(p *Program, fn *ssa.Function, opt Options) (*Result, error) {
	r := &Result{Harness: fn.Name(), Ended: map[string]int{}, Covers: map[string]int{}, Reached: map[string]int{},
		Unsup: map[string]int{}, Incompl: map[string]int{}, Funcs: map[string]int{}, FuncsUT: map[string]int{}}
	t0 := time.Now()
	deadline := t0.Add(opt.Time)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := []Job{{}}
	active := 0
	stop := false
	var timedOut atomic.Bool
	vioSeen := map[string]int{}
	worker := func() error {
		sv, err := solver.New("z3", opt.QueryMax)
		if err != nil {
			return err
		}
		sv.CrossEvery = opt.Cross
		defer sv.Close()
		m := NewMachine(p, sv, opt.Lim, opt.Params)
		defer func() {
			mu.Lock()
			defer mu.Unlock()
			r.Solver.Add(sv.Stats)
			r.Asserts += m.Asserts
			r.Discharged += m.AssertsDischarged
			r.ConstAssert += m.AssertsConst
			r.Branches += m.Branches
			r.Forks += m.BranchesForked
			for k, v := range m.Unsup {
				r.Unsup[k] += v
			}
			for k, v := range m.Incompl {
				r.Incompl[k] += v
			}
			for k, v := range m.Reached {
				r.Reached[k] += v
			}
			for f, n := range m.Funcs {
				r.Funcs[f.String()] += n
				if p.UnderTest(f) {
					r.FuncsUT[f.String()] += n
				}
			}
		}()
		for {
			mu.Lock()
			for len(stack) == 0 && active > 0 && !stop {
				cond.Wait()
			}
			if stop || len(stack) == 0 {
				mu.Unlock()
				cond.Broadcast()
				return nil
			}
			if time.Now().After(deadline) || (opt.MaxPaths > 0 && r.Paths >= opt.MaxPaths) {
				timedOut.Store(true)
				stop = true
				mu.Unlock()
				cond.Broadcast()
				return nil
			}
			job := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			active++
			mu.Unlock()
			var add []Job
			res := func() (res PathResult) {
				defer func() {
					if e := recover(); e != nil {
						if os.Getenv("GOSYM_PANIC") != "" {
							panic(e)
						}
						msg := fmt.Sprint("engine: ", e)
						if m.cur != nil && len(m.cur.frames) > 0 {
							msg += m.where()
						}
						res = PathResult{End: EndUnsupported, Msg: msg}
						m.Unsup[msg]++
						m.resetCtx()
					}
				}()
				return m.RunPath(fn, job, func(j Job) { add = append(add, j) })
			}()
			mu.Lock()
			active--
			stack = append(stack, add...)
			if res.End != EndInfeasible {
				r.Paths++
			}
			r.Ended[endNames[res.End]]++
			r.Steps += int64(res.Steps)
			r.States += res.Decs + 1 - len(job.Pre)
			r.MaxDecs = max(r.MaxDecs, res.Decs)
			r.MaxVars = max(r.MaxVars, res.NVars)
			r.Scheds = max(r.Scheds, res.Sched)
			for _, c := range res.Covers {
				r.Covers[c]++
			}
			for _, v := range res.Vio {
				if opt.Verbose {
					fmt.Fprintf(os.Stderr, "  %s: %s (%s)\n", v.Kind, v.Msg, v.Where)
				}
				k := v.Kind + v.Msg
				vioSeen[k]++
				if n := vioSeen[k]; n <= 3 || n&(n-1) == 0 { // and some later ones, in case the first are not confirmed
					r.Vio = append(r.Vio, v)
				}
			}
			if opt.MaxVio > 0 && len(r.Vio) >= opt.MaxVio*2 {
				stop = true
			}
			if res.End == EndOK && len(r.Samples) < opt.Samples*8 && len(res.Vio) == 0 {
				r.Samples = append(r.Samples, res)
			} else if res.End == EndOK && len(res.Vio) == 0 && opt.Samples > 0 {
				// reservoir by a fixed stride keeps late paths represented
				if r.Paths%97 == 0 {
					r.Samples[(r.Paths/97)%len(r.Samples)] = res
				}
			}
			mu.Unlock()
			cond.Broadcast()
		}
	}
	n := max(1, opt.Workers)
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		go func() { errs <- worker() }()
	}
	var err error
	for i := 0; i < n; i++ {
		if e := <-errs; e != nil {
			err = e
		}
	}
	r.Left = len(stack)
	r.Complete = !timedOut.Load() && !stop && len(r.Unsup) == 0 && len(r.Incompl) == 0 && err == nil
	r.Wall = time.Since(t0)
	if opt.Samples > 0 && len(r.Samples) > opt.Samples {
		// spread over distinct cover sets
		sort.SliceStable(r.Samples, func(i, j int) bool { return len(r.Samples[i].Covers) > len(r.Samples[j].Covers) })
		seen := map[string]bool{}
		var a, b []PathResult
		for _, s := range r.Samples {
			k := fmt.Sprint(s.Covers)
			if !seen[k] {
				seen[k] = true
				a = append(a, s)
			} else {
				b = append(b, s)
			}
		}
		r.Samples = append(a, b...)[:opt.Samples]
	}
	return r, err
}
