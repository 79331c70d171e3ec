package main

// Literals of the engine's current source, used to close alphabets and size
// sweeps over the constants the code compares with.

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Literals struct {
	Ints    []int
	Strings []string
}

func loadLiterals() *Literals {
	l := &Literals{}
	is := map[int]bool{}
	ss := map[string]bool{}
	dir := filepath.Join(repoDir(), "MAPL_engine")
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if fl, ok := n.(*ast.Field); ok {
				// skip struct tags
				if fl.Tag != nil {
					ast.Inspect(fl.Type, func(ast.Node) bool { return true })
					return false
				}
			}
			b, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch b.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(b.Value, 0, 64); err == nil && v >= 0 && v <= 4096 {
					is[int(v)] = true
				}
			case token.FLOAT:
				if v, err := strconv.ParseFloat(b.Value, 64); err == nil && v >= 0 && v <= 4096 {
					is[int(v)] = true
				}
			case token.CHAR:
				if s, err := strconv.Unquote(b.Value); err == nil {
					ss[s] = true
				}
			case token.STRING:
				if s, err := strconv.Unquote(b.Value); err == nil && len(s) > 0 && len(s) <= 40 {
					ss[s] = true
				}
			}
			return true
		})
	}
	for i := range is {
		l.Ints = append(l.Ints, i)
	}
	for s := range ss {
		l.Strings = append(l.Strings, s)
	}
	sort.Ints(l.Ints)
	sort.Strings(l.Strings)
	return l
}

// Sizes returns 0..base plus k-1,k,k+1 for every integer literal up to max.
func (l *Literals) Sizes(base, max int) []int {
	m := map[int]bool{}
	for i := 0; i <= base; i++ {
		m[i] = true
	}
	for _, k := range l.Ints {
		for d := -1; d <= 1; d++ {
			if k+d >= 0 && k+d <= max {
				m[k+d] = true
			}
		}
	}
	var out []int
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

// Words returns the string literals fully matching re.
func (l *Literals) Words(re string) []string {
	r := regexp.MustCompile("^(?:" + re + ")$")
	var out []string
	for _, s := range l.Strings {
		if r.MatchString(s) {
			out = append(out, s)
		}
	}
	return out
}
