package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type scratch struct {
	dir    string
	module string
	pkgs   []string // harness packages
}

var modRe = regexp.MustCompile(`(?m)^module\s+(\S+)`)

// newScratch copies the code under test and the harnesses into one module.
func newScratch(repo, root string) (*scratch, error) {
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mm := modRe.FindSubmatch(gm)
	if mm == nil {
		return nil, fmt.Errorf("no module line in go.mod")
	}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	s := &scratch{dir: dir, module: string(mm[1])}
	for _, d := range []string{s.symDir(), s.natDir()} {
		top, err := os.ReadDir(repo)
		if err != nil {
			return nil, err
		}
		for _, e := range top {
			if n := e.Name(); e.IsDir() && !strings.HasPrefix(n, ".") && n != "examples" {
				if err := copyGo(filepath.Join(repo, n), filepath.Join(d, n), nil); err != nil {
					return nil, err
				}
			}
		}
		os.WriteFile(filepath.Join(d, "go.mod"), gm, 0o644)
		if b, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
			os.WriteFile(filepath.Join(d, "go.sum"), b, 0o644)
		}
		sub := func(b []byte) []byte { return bytes.ReplaceAll(b, []byte("MODULE/"), []byte(s.module+"/")) }
		if err := copyGo(filepath.Join(root, "harness"), d, sub); err != nil {
			return nil, err
		}
		b, err := os.ReadFile(filepath.Join(root, "harness", "inject", "mqtt.go.txt"))
		if err == nil {
			os.WriteFile(filepath.Join(d, "mqtt", "zz_verif_export.go"), b, 0o644)
		}
	}
	ents, err := os.ReadDir(filepath.Join(root, "harness", "h"))
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if e.IsDir() {
			s.pkgs = append(s.pkgs, e.Name())
		}
	}
	sort.Strings(s.pkgs)
	return s, nil
}

func (s *scratch) symDir() string { return filepath.Join(s.dir, "sym") }
func (s *scratch) natDir() string { return filepath.Join(s.dir, "nat") }
func (s *scratch) remove() {
	if strings.HasPrefix(s.dir, os.TempDir()+"/gosym") {
		os.RemoveAll(s.dir)
	}
}

func (s *scratch) patterns() []string {
	out := []string{"./vnd", "./vmodel"}
	for _, p := range s.pkgs {
		out = append(out, "./h/"+p)
	}
	return out
}

func copyGo(from, to string, sub func([]byte) []byte) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if sub != nil {
			b = sub(b)
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}
