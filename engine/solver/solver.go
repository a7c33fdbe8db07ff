// Package solver drives an SMT solver process over a pipe.
package solver

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"verif/engine/term"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats counts discharged queries.
type Stats struct {
	Queries, Sat, Unsat, Unknown, Fallback int
	CrossChecked, CrossDisagree            int
	Time                                   time.Duration
	Max                                    time.Duration
}

func (s *Stats) Add(o Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Fallback += o.Fallback
	s.CrossChecked += o.CrossChecked
	s.CrossDisagree += o.CrossDisagree
	s.Time += o.Time
	s.Max = max(s.Max, o.Max)
}

// Solver is one incremental solver process.
type Solver struct {
	bin     string
	timeout time.Duration
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	pr      *term.Printer
	stack   []*term.Term
	vars    map[*term.Term][]*term.Term
	buf     strings.Builder
	Stats   Stats
	// CrossEvery, when positive, re-decides every n-th query with a second solver.
	CrossEvery int
	dead       bool
}

func New(bin string, timeout time.Duration) (*Solver, error) {
	s := &Solver{bin: bin, timeout: timeout}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.pr = term.NewPrinter()
	s.stack = nil
	s.vars = map[*term.Term][]*term.Term{}
	s.dead = false
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeout.Milliseconds())
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// Reset restarts the process, dropping all definitions.
func (s *Solver) Reset() error {
	s.Close()
	s.buf.Reset()
	return s.start()
}

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) varsOf(t *term.Term) []*term.Term {
	if v, ok := s.vars[t]; ok {
		return v
	}
	var v []*term.Term
	term.CollectVars(t, map[*term.Term]bool{}, &v)
	s.vars[t] = v
	return v
}

func (s *Solver) sync(path []*term.Term) {
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range path[n:] {
		r := s.pr.Ref(t, &s.buf)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides path ∧ extra. With want set, a model is returned on Sat.
func (s *Solver) Check(path []*term.Term, extra *term.Term, want bool) (Result, term.Model) {
	t0 := time.Now()
	res, m := s.check(path, extra, want)
	if res == Unknown {
		s.Stats.Fallback++
		res, m = s.oneShot(path, extra, []string{"z3-new", "-smt2", "-T:40"}, 60*time.Second)
		if res == Unknown {
			res, m = s.oneShot(path, extra, []string{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=40000"}, 60*time.Second)
		}
		s.stack = nil
		if err := s.Reset(); err != nil {
			s.dead = true
		}
	}
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	s.Stats.Max = max(s.Stats.Max, d)
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	if s.CrossEvery > 0 && res != Unknown && s.Stats.Queries%s.CrossEvery == 0 {
		r2, _ := s.oneShot(path, extra, []string{"cvc5", "--lang=smt2", "--produce-models", "--tlimit=20000"}, 30*time.Second)
		if r2 != Unknown {
			s.Stats.CrossChecked++
			if r2 != res {
				s.Stats.CrossDisagree++
			}
		}
	}
	return res, m
}

func (s *Solver) check(path []*term.Term, extra *term.Term, want bool) (Result, term.Model) {
	s.sync(path)
	r := s.pr.Ref(extra, &s.buf)
	fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n(check-sat)\n", r)
	if s.flush() != nil {
		return Unknown, nil
	}
	res := Unknown
	l, err := s.line()
	if err != nil {
		return Unknown, nil
	}
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(l, "(error") {
			panic("solver: " + l)
		}
	}
	var m term.Model
	if res == Sat && want {
		var vs []*term.Term
		seen := map[*term.Term]bool{}
		for _, t := range append(path[:len(path):len(path)], extra) {
			for _, v := range s.varsOf(t) {
				if !seen[v] {
					seen[v] = true
					vs = append(vs, v)
				}
			}
		}
		m = term.Model{}
		if len(vs) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vs {
				s.buf.WriteString(v.Sym() + " ")
			}
			s.buf.WriteString("))\n")
			if s.flush() != nil {
				return Unknown, nil
			}
			txt, err := s.sexp()
			if err != nil {
				return Unknown, nil
			}
			parseModel(txt, m)
		}
	}
	s.buf.WriteString("(pop 1)\n")
	return res, m
}

// sexp reads one balanced s-expression.
func (s *Solver) sexp() (string, error) {
	var b bytes.Buffer
	depth, inq := 0, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		switch {
		case c == '|':
			inq = !inq
		case inq:
		case c == '(':
			depth++
		case c == ')':
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return b.String(), nil
			}
		}
	}
}

func parseModel(txt string, m term.Model) {
	i := 0
	for {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			// unquoted names (cvc5 may drop the quotes)
			return
		}
		j += i
		k := strings.IndexByte(txt[j+1:], '|') + j + 1
		name := txt[j+1 : k]
		if a := strings.LastIndexByte(name, '@'); a > 0 {
			name = name[:a] // Term.Sym appends the width
		}
		rest := strings.TrimLeft(txt[k+1:], " \n")
		e := strings.IndexByte(rest, ')')
		m[name] = parseVal(strings.TrimSpace(rest[:e]))
		i = k + 1
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case strings.HasPrefix(v, "#x"):
		u, _ := strconv.ParseUint(v[2:], 16, 64)
		return u
	case strings.HasPrefix(v, "#b"):
		u, _ := strconv.ParseUint(v[2:], 2, 64)
		return u
	}
	return 0
}

// oneShot decides the query with a fresh process.
func (s *Solver) oneShot(path []*term.Term, extra *term.Term, argv []string, lim time.Duration) (Result, term.Model) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	pr := term.NewPrinter()
	var vs []*term.Term
	seen := map[*term.Term]bool{}
	for _, t := range append(path[:len(path):len(path)], extra) {
		r := pr.Ref(t, &sb)
		fmt.Fprintf(&sb, "(assert %s)\n", r)
		term.CollectVars(t, seen, &vs)
	}
	sb.WriteString("(check-sat)\n")
	for _, v := range vs {
		fmt.Fprintf(&sb, "(get-value (%s))\n", v.Sym())
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	args := append(argv[1:len(argv):len(argv)], "/dev/stdin")
	if argv[0] != "cvc5" {
		args = append(argv[1:len(argv):len(argv)], "-in")
	}
	cmd := exec.CommandContext(ctx, argv[0], args...)
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	txt := string(out)
	switch {
	case strings.HasPrefix(txt, "unsat"):
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		m := term.Model{}
		lines := strings.SplitN(txt, "\n", 2)
		if len(lines) == 2 {
			ls := strings.Split(strings.TrimSpace(lines[1]), "\n")
			for i, v := range vs {
				if i < len(ls) {
					f := strings.Fields(strings.Trim(ls[i], "()"))
					if len(f) > 0 {
						m[v.Name] = parseVal(f[len(f)-1])
					}
				}
			}
		}
		return Sat, m
	}
	return Unknown, nil
}
