package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"

	"verif/engine/sym"
)

// Replay is a counterexample in the form the compiled harness reads.
type Replay struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"msg"`
	Where    string         `json:"where"`
	Params   map[string]int `json:"params"`
	Inputs   []sym.Input    `json:"inputs"`
	Trace    []string       `json:"schedule,omitempty"`
}

// outcome is what the compiled harness prints per run.
type outcome struct {
	Fails  []string `json:"fails"`
	Covers []string `json:"covers"`
	Obs    []string `json:"obs"`
	Panic  string   `json:"panic"`
	Dead   string   `json:"dead"`
	Hang   bool     `json:"hang"`
	Skip   bool     `json:"skip"`
	Points string   `json:"points"`

	races string // what the race detector said
}

type native struct {
	sc   *scratch
	bin  string
	err  error
	done chan struct{}

	raceOnce sync.Once
	raceErr  error
}

func goEnv() []string {
	return append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func (s *scratch) startNative() *native {
	n := &native{sc: s, bin: filepath.Join(s.dir, "native"), done: make(chan struct{})}
	go func() {
		defer close(n.done)
		n.err = n.build()
	}()
	return n
}

func (n *native) wait() { <-n.done }

func (n *native) build() error {
	dir := n.sc.natDir()
	if err := rewrite(dir, n.sc.module); err != nil {
		return err
	}
	// registry of harness functions
	var sb strings.Builder
	var entries strings.Builder
	sb.WriteString("package main\nimport (\n")
	for _, p := range n.sc.pkgs {
		fs, err := harnessFuncs(filepath.Join(dir, "h", p))
		if err != nil {
			return err
		}
		if len(fs) > 0 {
			fmt.Fprintf(&sb, "%s %q\n", p, n.sc.module+"/h/"+p)
		}
		for _, f := range fs {
			fmt.Fprintf(&entries, "%q: %s.%s,\n", p+"."+f, p, f)
		}
	}
	sb.WriteString(")\nvar registry = map[string]func(){\n" + entries.String() + "}\n")
	md := filepath.Join(dir, "hmain")
	os.MkdirAll(md, 0o755)
	os.WriteFile(filepath.Join(md, "reg.go"), []byte(sb.String()), 0o644)
	os.WriteFile(filepath.Join(md, "main.go"), []byte(strings.ReplaceAll(nativeMain, "MODULE", n.sc.module)), 0o644)
	cmd := exec.Command("go", "build", "-o", n.bin, "./hmain")
	cmd.Dir = dir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}

func harnessFuncs(dir string) ([]string, error) {
	var out []string
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parse(fset, filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "H") && fd.Name.IsExported() &&
				fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 && fd.Type.TypeParams == nil {
				out = append(out, fd.Name.Name)
			}
		}
	}
	return out, nil
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"

	"MODULE/vrt"
)

type in struct {
	Harness string
	Params  map[string]int
	Inputs  []struct {
		Name string
		Val  uint64
	}
	Limit int
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var x in
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		f := registry[x.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", x.Harness)
			os.Exit(3)
		}
		vals := map[string]uint64{}
		for _, v := range x.Inputs {
			vals[v.Name] = v.Val
		}
		w, hang := vrt.Run(vals, x.Params, f, time.Duration(x.Limit)*time.Millisecond)
		out := map[string]interface{}{"hang": hang}
		if !hang {
			var cs []string
			for c := range w.Covers {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			out["covers"], out["fails"], out["obs"] = cs, w.Fails, w.Obs
			out["panic"], out["dead"], out["skip"] = w.Panic, w.Dead, w.Skip
			out["points"] = w.Points()
		}
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
		if hang {
			os.Exit(0)
		}
	}
}
`

func (n *native) raceBin() string { return n.bin + "race" }

// buildRace builds the harness with the race detector, for counterexamples
// that are data races.
func (n *native) buildRace() error {
	n.raceOnce.Do(func() {
		cmd := exec.Command("go", "build", "-race", "-gcflags="+n.sc.module+"/vrt=-race=false", "-gcflags="+n.sc.module+"/vnd=-race=false",
			"-o", n.raceBin(), "./hmain")
		cmd.Dir = n.sc.natDir()
		cmd.Env = append(goEnv(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			n.raceErr = fmt.Errorf("race detector: %v\n%s", err, out)
		}
	})
	return n.raceErr
}

// raced tells whether the detector saw a race between two accesses of the
// module, at least one of them in the code under test.
func (n *native) raced(out string) bool {
	dir := n.sc.natDir() + string(filepath.Separator)
	for _, rep := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		var where []string
		for _, part := range strings.Split(rep, "\n\n") {
			part = strings.TrimSpace(part)
			if !strings.Contains(strings.SplitN(part, "\n", 2)[0], " at 0x") {
				continue
			}
			for _, l := range strings.Split(part, "\n") {
				if l = strings.TrimSpace(l); strings.HasPrefix(l, dir) {
					top, _, _ := strings.Cut(l[len(dir):], string(filepath.Separator))
					where = append(where, top)
					break
				}
			}
		}
		ours, known := 0, 0
		for _, w := range where {
			switch w {
			case "mqtt":
				ours++
				known++
			case "h":
				known++
			}
		}
		if len(where) == 2 && known == 2 && ours > 0 {
			return true
		}
	}
	return false
}

// exec runs a batch of replays in one process.
func (n *native) exec(rs []*Replay, limit time.Duration) ([]outcome, error) {
	return n.execWith(n.bin, rs, limit)
}

func (n *native) execWith(bin string, rs []*Replay, limit time.Duration) ([]outcome, error) {
	n.wait()
	if n.err != nil {
		return nil, n.err
	}
	var in bytes.Buffer
	for _, r := range rs {
		b, _ := json.Marshal(map[string]interface{}{"Harness": r.Harness, "Params": r.Params, "Inputs": r.Inputs, "Limit": limit.Milliseconds()})
		in.Write(b)
		in.WriteByte('\n')
	}
	cmd := exec.Command(bin)
	cmd.Dir = n.sc.dir
	cmd.Stdin = &in
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=6GiB", "GORACE=halt_on_error=0 exitcode=0 history_size=7")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(limit*time.Duration(len(rs))+30*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	var os []outcome
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "{") {
			var o outcome
			if json.Unmarshal([]byte(l), &o) == nil {
				os = append(os, o)
			}
		}
	}
	for i := range os {
		os[i].races = errb.String()
	}
	if len(os) < len(rs) && err != nil {
		// the process died: a crash of the compiled code
		os = append(os, outcome{Panic: tail(errb.String())})
	}
	return os, nil
}

func tail(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// reproduces runs the counterexample natively; map iteration order is retried.
func (n *native) reproduces(r *Replay) (bool, string) {
	why := ""
	bin := n.bin
	if r.Kind == "race" {
		n.wait()
		if n.err != nil {
			return false, n.err.Error()
		}
		if err := n.buildRace(); err != nil {
			return false, err.Error()
		}
		bin = n.raceBin()
	}
	for i := 0; i < 12; i++ {
		os, err := n.execWith(bin, []*Replay{r}, 12*time.Second)
		if err != nil {
			return false, err.Error()
		}
		if len(os) == 0 {
			why = "no outcome"
			continue
		}
		if r.Kind == "race" {
			if n.raced(os[0].races) {
				return true, ""
			}
			why = tail("the race detector did not confirm it: " + os[0].races)
			continue
		}
		ok, w := matches(r, os[0])
		if ok {
			return true, ""
		}
		why = w
		if os[0].Hang {
			break
		}
	}
	return false, why
}

func matches(r *Replay, o outcome) (bool, string) {
	if o.Skip && len(o.Fails) == 0 {
		return false, "assumption not met natively"
	}
	switch r.Kind {
	case "assert":
		for _, f := range o.Fails {
			if f == r.Msg {
				return true, ""
			}
		}
		// the same inputs make the code panic, or break another assertion
		if o.Panic != "" || len(o.Fails) > 0 {
			return true, ""
		}
	case "panic":
		if o.Panic != "" {
			return true, ""
		}
	case "deadlock":
		if o.Dead != "" {
			return true, ""
		}
	case "hang":
		if o.Hang {
			return true, ""
		}
	}
	b, _ := json.Marshal(o)
	return false, tail(string(b))
}

// validate compares passing paths with the compiled code.
func (n *native) validate(fn string, params map[string]int, samples []sym.PathResult) (ok int, mism []string, total int) {
	var rs []*Replay
	for _, s := range samples {
		rs = append(rs, &Replay{Harness: fn, Params: params, Inputs: s.Inputs})
	}
	os, err := n.exec(rs, 10*time.Second)
	if err != nil {
		return 0, nil, 0
	}
	for i, s := range samples {
		total++
		if i >= len(os) {
			break
		}
		cmp := func(o outcome) string {
			if len(o.Fails) > 0 || o.Panic != "" || o.Dead != "" || o.Hang || o.Skip {
				b, _ := json.Marshal(o)
				return tail(string(b))
			}
			if strings.Join(o.Covers, "|") != strings.Join(s.Covers, "|") {
				return fmt.Sprintf("covers %v, model %v", o.Covers, s.Covers)
			}
			if strings.Join(o.Obs, "|") != strings.Join(s.Obs, "|") {
				return fmt.Sprintf("observed %v, model %v", o.Obs, s.Obs)
			}
			if o.Points != s.Points {
				return fmt.Sprintf("scheduling decisions %s, model %s", o.Points, s.Points)
			}
			return ""
		}
		d := cmp(os[i])
		for k := 0; k < 6 && d != ""; k++ {
			o2, _ := n.exec([]*Replay{rs[i]}, 10*time.Second)
			if len(o2) == 1 {
				d = cmp(o2[0])
			}
		}
		if d == "" {
			ok++
		} else {
			mism = append(mism, fn+": "+d+"\n"+fmtInputs(s.Inputs))
		}
	}
	return
}

func saveReplay(root string, r *Replay) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0o755)
	for i := 1; ; i++ {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Property, i))
		if _, err := os.Stat(p); err == nil && i < 1000 {
			continue
		}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(p, b, 0o644)
		return p
	}
}

func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		return fail("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return fail("%v", err)
	}
	sc, err := newScratch(*repo, *root)
	if err != nil {
		return fail("%v", err)
	}
	if !*keep {
		defer sc.remove()
	}
	n := sc.startNative()
	ok, why := n.reproduces(&r)
	if ok {
		fmt.Printf("reproduced: %s: %s\nVIOLATION property=%s replay=%s\n", r.Kind, r.Msg, r.Property, path)
		return 1
	}
	fmt.Printf("not reproduced: %s\n", why)
	return 0
}

// ---- source rewriting ----

var rewriteSel = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond", "NewCond": "NewCond"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick"},
	"context": {"WithCancel": "WithCancel", "WithDeadline": "WithDeadline", "WithTimeout": "WithTimeout"},
	"runtime": {"Gosched": "Gosched"},
	"math/rand": {"Uint32": "RUint32", "Uint64": "RUint64", "Int": "RInt", "Int63": "RInt63", "Int31": "RInt31", "Intn": "RIntn",
		"Int63n": "RInt63n", "Int31n": "RInt31n"},
	"math/rand/v2": {"Uint32": "RUint32", "Uint64": "RUint64", "Int": "RInt", "Int64": "RInt63", "Int32": "RInt31", "IntN": "RIntn",
		"Int64N": "RInt63n", "Int32N": "RInt31n"},
}

func rewrite(dir, module string) error {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile,
		Dir: dir, Env: goEnv()}
	ps, err := packages.Load(cfg, "./mqtt/...", "./h/...")
	if err != nil {
		return err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return fmt.Errorf("%v", e)
		}
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			rw := &rewriter{p: p, f: f, module: module}
			if !rw.run() {
				continue
			}
			dropDirectives(f)
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				return fmt.Errorf("%s: %v", path, err)
			}
			if err := os.WriteFile(path, buf.Bytes(), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

// dropDirectives removes all comments: their positions mean nothing after the
// rewriting, and a directive that moved is an error.
func dropDirectives(f *ast.File) {
	f.Comments, f.Doc = nil, nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

type rewriter struct {
	p      *packages.Package
	f      *ast.File
	module string
	n      int
	used   bool
}

func vrtSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vrt_"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) vcall(name string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	return &ast.CallExpr{Fun: vrtSel(name), Args: args}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent("v_" + strconv.Itoa(r.n))
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rewriter) run() bool {
	info := r.p.TypesInfo
	left := map[string]int{} // remaining uses per package
	out := astutil.Apply(r.f, nil, func(c *astutil.Cursor) bool {
		switch x := c.Node().(type) {
		case *ast.SelectStmt:
			c.Replace(r.selectStmt(x))
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			path := pn.Imported().Path()
			to := rewriteSel[path][x.Sel.Name]
			if path == "sync/atomic" {
				to = x.Sel.Name
			}
			if to != "" {
				r.used = true
				c.Replace(vrtSel(to))
			} else {
				left[path]++
			}
		case *ast.GoStmt:
			call := x.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				c.Replace(&ast.ExprStmt{X: r.vcall("Go", fl)})
				return true
			}
			var lhs, rhs, ids []ast.Expr
			f := r.tmp()
			lhs, rhs = append(lhs, f), append(rhs, call.Fun)
			for _, a := range call.Args {
				t := r.tmp()
				lhs, rhs, ids = append(lhs, t), append(rhs, a), append(ids, ast.NewIdent(t.Name))
			}
			nc := &ast.CallExpr{Fun: ast.NewIdent(f.Name), Args: ids, Ellipsis: call.Ellipsis}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{define(lhs, rhs...), &ast.ExprStmt{X: r.vcall("Go",
				&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})}}})
		case *ast.SendStmt:
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: r.vcall("Send", x.Chan), Args: []ast.Expr{x.Value}}})
		case *ast.UnaryExpr:
			if x.Op != token.ARROW {
				return true
			}
			name := "Recv"
			switch p := c.Parent().(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					name = "Recv2"
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					name = "Recv2"
				}
			}
			c.Replace(r.vcall(name, x.X))
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				if b, ok := info.Uses[id].(*types.Builtin); ok {
					if b.Name() == "close" {
						c.Replace(r.vcall("Close", x.Args...))
					} else if b.Name() == "len" && len(x.Args) == 1 && isChan(info.TypeOf(x.Args[0])) {
						c.Replace(r.vcall("Len", x.Args...))
					}
				}
			}
		case *ast.RangeStmt:
			if !isChan(info.TypeOf(x.X)) {
				return true
			}
			ch, ok := r.tmp(), r.tmp()
			var body []ast.Stmt
			key := x.Key
			if key == nil {
				key = ast.NewIdent("_")
			}
			if x.Tok == token.ASSIGN {
				body = append(body, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{key, ast.NewIdent(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.vcall("Recv2", ast.NewIdent(ch.Name))}})
			} else {
				body = append(body, define([]ast.Expr{key, ok}, r.vcall("Recv2", ast.NewIdent(ch.Name))))
			}
			body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			body = append(body, x.Body.List...)
			c.Replace(&ast.ForStmt{Init: define([]ast.Expr{ch}, x.X), Cond: ast.NewIdent("true"), Body: &ast.BlockStmt{List: body}})
		}
		return true
	})
	if !r.used {
		return false
	}
	f := out.(*ast.File)
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if _, ok := rewriteSel[path]; (ok || path == "sync/atomic") && left[path] == 0 && (im.Name == nil || im.Name.Name != ".") {
			im.Name = ast.NewIdent("_")
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.module + "/vrt")}}}}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	return true
}

// vrtCall recognises an already rewritten channel operation.
func vrtCall(e ast.Expr) (string, []ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return "", nil
	}
	if inner, ok := call.Fun.(*ast.CallExpr); ok {
		// Send(ch)(v)
		n, a := vrtCall(inner)
		return n, append(append([]ast.Expr{}, a...), call.Args...)
	}
	if se, ok := call.Fun.(*ast.SelectorExpr); ok {
		if id, ok := se.X.(*ast.Ident); ok && id.Name == "vrt_" {
			return se.Sel.Name, call.Args
		}
	}
	return "", nil
}

// selectStmt turns a select, whose parts are already rewritten, into
// registration calls and a switch.
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	sel := r.tmp()
	blk := &ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{sel}, r.vcall("NewSel"))}}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	def := "false"
	idx := 0
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CommClause)
		body := cc.Body
		val := "-1"
		recv := func(ch ast.Expr) *ast.Ident {
			t := r.tmp()
			blk.List = append(blk.List, define([]ast.Expr{t}, r.vcall("SelRecv", ast.NewIdent(sel.Name), ch)),
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}})
			return t
		}
		field := func(t *ast.Ident, n string) ast.Expr {
			return &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent(n)}
		}
		switch c := cc.Comm.(type) {
		case nil:
			def = "true"
		case *ast.ExprStmt:
			if n, a := vrtCall(c.X); n == "Send" {
				blk.List = append(blk.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.vcall("SelSend", ast.NewIdent(sel.Name), a[0]), Args: []ast.Expr{a[1]}}})
			} else {
				recv(a[0])
			}
		case *ast.AssignStmt:
			_, a := vrtCall(c.Rhs[0])
			t := recv(a[0])
			rhs := []ast.Expr{field(t, "V")}
			if len(c.Lhs) == 2 {
				rhs = append(rhs, field(t, "OK"))
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: rhs}}, body...)
		}
		if cc.Comm != nil {
			val = strconv.Itoa(idx)
			idx++
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: val}}, Body: body})
	}
	// the last clause becomes the default so that a select that ends in
	// terminating statements stays one
	if n := len(sw.Body.List); n > 0 {
		sw.Body.List[n-1].(*ast.CaseClause).List = nil
	}
	sw.Tag = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(sel.Name), Sel: ast.NewIdent("Wait")}, Args: []ast.Expr{ast.NewIdent(def)}}
	blk.List = append(blk.List, sw)
	return blk
}
