// gosym decides the properties of /verif/checks.json by symbolic execution of
// the code in /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/engine/sym"
)

// Run is one harness of a property.
type Run struct {
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Thorough map[string]int `json:"thorough"`
	Time     int            `json:"time"`
	TTime    int            `json:"ttime"`
	Steps    int            `json:"steps"`
	Conc     int            `json:"conc"`
	Depth    int            `json:"depth"`
	Covers   []string       `json:"covers"`
	Bounds   string         `json:"bounds"`
	Hang     bool           `json:"hang_ok"`
	Only     string         `json:"only"` // tier
}

// Check is a property and the harnesses deciding it.
type Check struct {
	Title   string   `json:"title"`
	Runs    []Run    `json:"runs"`
	Outside string   `json:"outside"`
	Stubs   []string `json:"stubs"`
}

// Finding is a listed known finding.
type Finding struct {
	Property, Label, Text string
}

var (
	root    = flag.String("root", "/verif", "verification tree")
	repo    = flag.String("repo", "/repo", "code under test")
	tierF   = flag.String("tier", "", "quick or thorough")
	verbose = flag.Bool("v", false, "verbose")
	only    = flag.String("fn", "", "run only harnesses containing this")
	keep    = flag.Bool("keep", false, "keep scratch directories")
	params  = flag.String("p", "", "parameter overrides a=1,b=2")
	workers = flag.Int("j", 0, "workers")
	timeF   = flag.Int("time", 0, "seconds per harness")
	nosamp  = flag.Bool("nosamples", false, "no native validation of passing paths")
	replayF = flag.String("replay", "", "replay this counterexample file natively")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	os.Exit(run())
}

func fail(f string, a ...interface{}) int {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	return 2
}

func run() int {
	if *replayF != "" {
		return replayCmd(*replayF)
	}
	if flag.NArg() != 1 {
		return fail("usage: gosym [flags] PROPERTY")
	}
	id := flag.Arg(0)
	var checks map[string]Check
	b, err := os.ReadFile(filepath.Join(*root, "checks.json"))
	if err != nil {
		return fail("%v", err)
	}
	if err := json.Unmarshal(b, &checks); err != nil {
		return fail("checks.json: %v", err)
	}
	ck, ok := checks[id]
	if !ok {
		return fail("no check for %s", id)
	}
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	sc, err := newScratch(*repo, *root)
	if err != nil {
		return fail("%v", err)
	}
	if !*keep {
		defer sc.remove()
	} else {
		fmt.Println("scratch:", sc.dir)
	}
	nat := sc.startNative() // compiles concurrently
	prog, err := sym.Load(sc.symDir(), sc.module, []string{"vsym"}, sc.patterns()...)
	if err != nil {
		nat.wait()
		return fail("%v", err)
	}
	tload := time.Since(t0)
	ev := newEvidence(id, tier, ck)
	ev.load = tload
	known := loadFindings(filepath.Join(*root, "known_findings"))
	nw := *workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	code := 0
	asserted := 0
	var verdicts []string
	seenKnown := map[string]bool{}
	for _, r := range ck.Runs {
		if *only != "" && !strings.Contains(r.Fn, *only) {
			continue
		}
		if r.Only != "" && r.Only != tier {
			continue
		}
		i := strings.LastIndexByte(r.Fn, '.')
		fn := prog.Func("h/"+r.Fn[:i], r.Fn[i+1:])
		if fn == nil {
			nat.wait()
			return fail("no harness %s", r.Fn)
		}
		pm := map[string]int{}
		for k, v := range r.Params {
			pm[k] = v
		}
		tm := def(r.Time, 60)
		if tier == "thorough" {
			for k, v := range r.Thorough {
				pm[k] = v
			}
			tm = def(r.TTime, def(r.Time, 60)*8)
		}
		for _, kv := range strings.Split(*params, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				n := 0
				fmt.Sscan(v, &n)
				pm[k] = n
			}
		}
		if *timeF > 0 {
			tm = *timeF
		}
		opt := sym.Options{Params: pm, Workers: nw, Time: time.Duration(tm) * time.Second, QueryMax: 20 * time.Second,
			Cross: 200, Samples: 12, MaxVio: 24, Verbose: *verbose,
			Lim: sym.Limits{Steps: def(r.Steps, 2_000_000), Conc: def(r.Conc, 512), Depth: def(r.Depth, 4000), HangIsOK: r.Hang}}
		if tier == "thorough" {
			opt.Cross, opt.Samples, opt.QueryMax = 50, 40, 120*time.Second
		}
		res, err := sym.Explore(prog, fn, opt)
		if err != nil {
			nat.wait()
			return fail("%s: %v", r.Fn, err)
		}
		asserted += res.Asserts
		fmt.Printf("%s %s: %d paths %v, %d assertions (%d by solver, %d folded), %d queries %.1fs solver, %.1fs, complete=%v\n",
			id, r.Fn, res.Paths, res.Ended, res.Asserts, res.Discharged, res.ConstAssert, res.Solver.Queries, res.Solver.Time.Seconds(), res.Wall.Seconds(), res.Complete)
		for _, s := range []map[string]int{res.Unsup, res.Incompl} {
			for _, k := range keys(s) {
				fmt.Printf("  NOTE reduced bound: %s (x%d)\n", k, s[k])
			}
		}
		if res.Left > 0 {
			fmt.Printf("  NOTE reduced bound: stopped with %d path prefixes unexplored\n", res.Left)
		}
		for _, c := range r.Covers {
			if res.Covers[c] == 0 && len(res.Vio) == 0 {
				fmt.Printf("  NOTE not reached: %s\n", c)
			}
		}
		if *verbose {
			for _, k := range keys(res.Covers) {
				fmt.Printf("  cover %s: %d\n", k, res.Covers[k])
			}
		}
		// counterexamples are believed only when the compiled code reproduces them
		reported := map[string]bool{}
		unrep := map[string]string{}
		for _, v := range res.Vio {
			key := v.Kind + ": " + v.Msg
			if reported[key] {
				continue
			}
			rp := &Replay{Property: id, Harness: r.Fn, Kind: v.Kind, Msg: v.Msg, Where: v.Where, Params: pm, Inputs: v.Inputs, Trace: v.Trace}
			okr, why := nat.reproduces(rp)
			ev.replays++
			if !okr {
				unrep[key] = why
				if *verbose {
					fmt.Printf("  not reproduced natively: %s: %s\n%s\n", key, why, fmtInputs(v.Inputs))
				}
				continue
			}
			reported[key] = true
			delete(unrep, key)
			ev.reproduced++
			if f, ok := matchFinding(known, id, r.Fn, v); ok {
				if !seenKnown[f.Label] {
					seenKnown[f.Label] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.Text)
				}
				ev.known = append(ev.known, f.Label)
				continue
			}
			path := saveReplay(*root, rp)
			fmt.Printf("  %s: %s\n  at %s\n%s\n", v.Kind, v.Msg, v.Where, fmtInputs(v.Inputs))
			verdicts = append(verdicts, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
			ev.violations = append(ev.violations, v.Kind+": "+v.Msg)
			code = 1
		}
		for k, why := range unrep {
			if !reported[k] {
				fmt.Printf("  NOTE solver counterexample not reproduced by the compiled code, not reported: %s (%s)\n", k, why)
				ev.unreproduced = append(ev.unreproduced, k)
			}
		}
		ok, bad, total := 0, 0, 0
		if !*nosamp && len(res.Samples) > 0 {
			var mism []string
			ok, mism, total = nat.validate(r.Fn, pm, res.Samples)
			bad = len(mism)
			for _, s := range mism {
				fmt.Printf("  NOTE path model and compiled code differ: %s\n", s)
			}
		}
		ev.add(r, pm, res, ok, bad, total)
	}
	nat.wait()
	if nat.err != nil {
		return fail("native build: %v", nat.err)
	}
	ev.wall = time.Since(t0)
	if *only == "" {
		if err := ev.write(filepath.Join(*root, "evidence", id+".json")); err != nil {
			return fail("%v", err)
		}
	}
	for _, v := range verdicts {
		fmt.Println(v)
	}
	if code == 0 && asserted == 0 {
		return fail("%s: no assertion was reached; nothing was checked", id)
	}
	if code == 0 {
		fmt.Printf("%s held on everything explored (%.1fs)\n", id, ev.wall.Seconds())
	}
	return code
}

func def(a, b int) int {
	if a == 0 {
		return b
	}
	return a
}

func keys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fmtInputs(in []sym.Input) string {
	var sb strings.Builder
	sb.WriteString("  inputs:")
	for i, x := range in {
		if i == 60 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%d", x.Name, x.Val)
	}
	return sb.String()
}

// loadFindings reads lines "finding: property=<id> label=<assertion label> -- text".
func loadFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var fs []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var f Finding
		head, text, _ := strings.Cut(strings.TrimSpace(strings.TrimPrefix(l, "finding:")), " -- ")
		f.Text = text
		p, lab, _ := strings.Cut(head, " label=")
		f.Property = strings.TrimPrefix(strings.TrimSpace(p), "property=")
		f.Label = strings.Trim(lab, "\" ")
		fs = append(fs, f)
	}
	return fs
}

func matchFinding(fs []Finding, id, fn string, v *sym.Violation) (Finding, bool) {
	for _, f := range fs {
		if f.Property == id && f.Label != "" && f.Label == v.Msg {
			return f, true
		}
	}
	return Finding{}, false
}
