// instr writes an overlay for the MAPL_engine package in which the order of
// every iteration over a map is decided by the explorer (and, with -yield, the
// explorer's scheduler is entered before every statement).
//
// usage: instr [-yield|-plain] <repo> <out dir>
//
// The result is <out dir>/overlay.json.  If the package cannot be analysed the
// overlay only adds the hooks, and "instrumented: no" is recorded, which the
// explorer reports.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const hooks = `package MAPL_engine

// Added by the explorer's overlay.

import (
	"fmt"
	"reflect"
	"sort"
)

// VerifInstrumented tells whether map iterations of this build are controlled.
const VerifInstrumented = %v

// VerifYields tells whether this build enters the scheduler.
const VerifYields = %v

// VerifOrder picks the order in which the n (sorted) keys of a map are visited.
var VerifOrder func(n int) []int

// VerifYield is entered before every statement of a build with -yield.
var VerifYield func()

func vpYield() {
	if VerifYield != nil {
		VerifYield()
	}
}

type vpIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	pos  int
}

func vpLess(a, b reflect.Value) bool {
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	if a.Kind() == reflect.String && b.Kind() == reflect.String {
		return a.String() < b.String()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

func vpNew[K comparable, V any](m map[K]V) *vpIter[K, V] {
	it := &vpIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool {
		return vpLess(reflect.ValueOf(&it.keys[i]).Elem(), reflect.ValueOf(&it.keys[j]).Elem())
	})
	if VerifOrder != nil && len(it.keys) > 1 {
		ks := make([]K, 0, len(it.keys))
		for _, i := range VerifOrder(len(it.keys)) {
			ks = append(ks, it.keys[i])
		}
		it.keys = ks
	}
	return it
}

func vpKV[K comparable, V any](m map[K]V) (*vpIter[K, V], K, V) {
	var k K
	var v V
	return vpNew(m), k, v
}

func vpK[K comparable, V any](m map[K]V) (*vpIter[K, V], K) {
	var k K
	return vpNew(m), k
}

func vpV[K comparable, V any](m map[K]V) (*vpIter[K, V], V) {
	var v V
	return vpNew(m), v
}

func (it *vpIter[K, V]) next(k *K, v *V) bool {
	for it.pos < len(it.keys) {
		key := it.keys[it.pos]
		it.pos++
		val, ok := it.m[key]
		if !ok { // deleted during the iteration
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// The same for maps with interface{} keys.

type vpIterI[V any] struct {
	m    map[interface{}]V
	keys []interface{}
	pos  int
}

func vpNewI[V any](m map[interface{}]V) *vpIterI[V] {
	it := &vpIterI[V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool {
		return vpLess(reflect.ValueOf(&it.keys[i]).Elem(), reflect.ValueOf(&it.keys[j]).Elem())
	})
	if VerifOrder != nil && len(it.keys) > 1 {
		ks := make([]interface{}, 0, len(it.keys))
		for _, i := range VerifOrder(len(it.keys)) {
			ks = append(ks, it.keys[i])
		}
		it.keys = ks
	}
	return it
}

func vpKVI[V any](m map[interface{}]V) (*vpIterI[V], interface{}, V) {
	var k interface{}
	var v V
	return vpNewI(m), k, v
}

func vpKI[V any](m map[interface{}]V) (*vpIterI[V], interface{}) {
	var k interface{}
	return vpNewI(m), k
}

func vpVI[V any](m map[interface{}]V) (*vpIterI[V], V) {
	var v V
	return vpNewI(m), v
}

func (it *vpIterI[V]) next(k *interface{}, v *V) bool {
	for it.pos < len(it.keys) {
		key := it.keys[it.pos]
		it.pos++
		val, ok := it.m[key]
		if !ok { // deleted during the iteration
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}
`

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Module     *struct{ GoVersion string }
}

func main() {
	yield := flag.Bool("yield", false, "insert scheduling points")
	plain := flag.Bool("plain", false, "only add the hooks")
	flag.Parse()
	repo, out := flag.Arg(0), flag.Arg(1)
	os.MkdirAll(out, 0o755)
	replace := map[string]string{}
	err := fmt.Errorf("not asked for")
	if !*plain {
		err = rewrite(repo, out, *yield, replace)
	}
	ok := err == nil
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr: not instrumented:", err)
		replace = map[string]string{}
	}
	hp := filepath.Join(out, "zz_verif_hooks.go")
	check(os.WriteFile(hp, []byte(fmt.Sprintf(hooks, ok, ok && *yield)), 0o644))
	replace[filepath.Join(repo, "MAPL_engine", "zz_verif_hooks.go")] = hp
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func rewrite(repo, out string, yield bool, replace map[string]string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,ImportMap,Module", "./MAPL_engine")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return err
	}
	exports := map[string]string{}
	var target pkgInfo
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		target = p // the package itself comes last
	}
	if !strings.HasSuffix(target.ImportPath, "/MAPL_engine") {
		return fmt.Errorf("unexpected package %s", target.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range target.GoFiles {
		src, err := os.ReadFile(filepath.Join(target.Dir, f))
		if err != nil {
			return err
		}
		if strings.Contains(string(src), "//go:") || strings.Contains(string(src), "import \"C\"") {
			return fmt.Errorf("%s has directives", f)
		}
		a, err := parser.ParseFile(fset, filepath.Join(target.Dir, f), src, 0)
		if err != nil {
			return err
		}
		files = append(files, a)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := target.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	if target.Module != nil && target.Module.GoVersion != "" {
		conf.GoVersion = "go" + target.Module.GoVersion
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	if _, err := conf.Check(target.ImportPath, fset, files, info); err != nil {
		return err
	}
	for i, f := range files {
		r := &rewriter{info: info}
		r.file(f)
		if yield {
			addYields(f, info)
		}
		if r.n == 0 && !yield {
			continue
		}
		p := filepath.Join(out, target.GoFiles[i])
		w, err := os.Create(p)
		if err != nil {
			return err
		}
		if err := printer.Fprint(w, fset, f); err != nil {
			return err
		}
		if err := w.Close(); err != nil {
			return err
		}
		replace[filepath.Join(target.Dir, target.GoFiles[i])] = p
	}
	return nil
}

type rewriter struct {
	info *types.Info
	n    int
}

// file replaces "for k, v := range m" by
// "for it, k, v := vpKV(m); it.next(&k, &v); {...}" (variables are per loop or
// per iteration exactly as in the original).
func (r *rewriter) file(f *ast.File) {
	fix := func(s ast.Stmt) ast.Stmt {
		l, isL := s.(*ast.LabeledStmt)
		for isL {
			if rs, ok := l.Stmt.(*ast.RangeStmt); ok {
				if x := r.loop(rs); x != nil {
					l.Stmt = x
				}
				return s
			}
			l, isL = l.Stmt.(*ast.LabeledStmt)
		}
		if rs, ok := s.(*ast.RangeStmt); ok {
			if x := r.loop(rs); x != nil {
				return x
			}
		}
		return s
	}
	ast.Inspect(f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			list = x.List
		case *ast.CaseClause:
			list = x.Body
		case *ast.CommClause:
			list = x.Body
		}
		for i := range list {
			list[i] = fix(list[i])
		}
		return true
	})
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) loop(s *ast.RangeStmt) ast.Stmt {
	t := r.info.Types[s.X].Type
	if t == nil {
		return nil
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return nil
	}
	suffix := ""
	if i, ok := m.Key().Underlying().(*types.Interface); ok {
		if i.NumMethods() > 0 || !types.Identical(m.Key(), types.NewInterfaceType(nil, nil)) {
			return nil
		}
		suffix = "I"
	}
	nk, nv := blank(s.Key), blank(s.Value)
	if nk && nv {
		return nil
	}
	it := ast.NewIdent("vpit")
	lhs := []ast.Expr{it}
	fn := "vpKV"
	addr := func(e ast.Expr, none bool) ast.Expr {
		if none {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	switch {
	case s.Tok == token.ASSIGN:
		for _, e := range []ast.Expr{s.Key, s.Value} {
			if !blank(e) {
				if _, ok := e.(*ast.Ident); !ok {
					return nil
				}
			}
		}
		fn = "vpNew"
	case nk:
		fn = "vpV"
		lhs = append(lhs, s.Value)
	case nv:
		fn = "vpK"
		lhs = append(lhs, s.Key)
	default:
		lhs = append(lhs, s.Key, s.Value)
	}
	r.n++
	use := func(e ast.Expr) ast.Expr {
		if blank(e) {
			return nil
		}
		return ast.NewIdent(e.(*ast.Ident).Name)
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: ast.NewIdent(fn + suffix), Args: []ast.Expr{s.X}}}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vpit"), Sel: ast.NewIdent("next")},
			Args: []ast.Expr{addr(use(s.Key), nk), addr(use(s.Value), nv)}},
		Body: s.Body,
	}
}

// addYields enters the scheduler before every statement that may touch memory
// other goroutines can reach.  A statement that only uses local variables and
// strings commutes with everything the others do.
func addYields(f *ast.File, info *types.Info) {
	call := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("vpYield")}}
	}
	escaped := escapedVars(f, info)
	weave := func(list []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range list {
			if mayShare(s, info, escaped) {
				out = append(out, call())
			}
			out = append(out, s)
		}
		return out
	}
	skip := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SwitchStmt:
			skip[x.Body] = true
		case *ast.TypeSwitchStmt:
			skip[x.Body] = true
		case *ast.SelectStmt:
			skip[x.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			if !skip[x] {
				x.List = weave(x.List)
			}
		case *ast.CaseClause:
			x.Body = weave(x.Body)
		case *ast.CommClause:
			x.Body = weave(x.Body)
		}
		return true
	})
}

// escapedVars are the local variables whose address is taken or that are used
// inside of a function literal.
func escapedVars(f *ast.File, info *types.Info) map[types.Object]bool {
	out := map[types.Object]bool{}
	mark := func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok {
				if o := info.Uses[id]; o != nil {
					out[o] = true
				}
			}
			return true
		})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.FuncLit:
			mark(x.Body)
		}
		return true
	})
	return out
}

// basic: a value of the type holds no reference to memory that can change
func basic(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Tuple:
		return true // of a call: its arguments decide
	}
	return false
}

func mayShare(s ast.Stmt, info *types.Info, escaped map[types.Object]bool) bool {
	var parts []ast.Node
	add := func(n ast.Node) { parts = append(parts, n) }
	switch x := s.(type) {
	case *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.DeclStmt:
		if d, ok := s.(*ast.DeclStmt); ok {
			add(d.Decl)
		}
	case *ast.LabeledStmt:
		return mayShare(x.Stmt, info, escaped)
	case *ast.IfStmt:
		if x.Init != nil {
			add(x.Init)
		}
		add(x.Cond)
		for e, ok := x.Else.(*ast.IfStmt); ok; e, ok = e.Else.(*ast.IfStmt) { // the other conditions of the chain
			if e.Init != nil {
				add(e.Init)
			}
			add(e.Cond)
		}
	case *ast.ForStmt:
		for _, n := range []ast.Stmt{x.Init, x.Post} {
			if n != nil {
				add(n)
			}
		}
		if x.Cond != nil {
			add(x.Cond)
		}
	case *ast.RangeStmt:
		if t := info.Types[x.X].Type; !basic(t) {
			return true
		}
		add(x.X)
	case *ast.SwitchStmt:
		if x.Init != nil {
			add(x.Init)
		}
		if x.Tag != nil {
			add(x.Tag)
		}
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				add(e)
			}
		}
	case *ast.AssignStmt, *ast.ExprStmt, *ast.ReturnStmt, *ast.IncDecStmt:
		add(s)
	default:
		return true
	}
	shared := false
	for _, p := range parts {
		ast.Inspect(p, func(n ast.Node) bool {
			if shared {
				return false
			}
			switch x := n.(type) {
			case *ast.Ident:
				o := info.Uses[x]
				if o == nil {
					o = info.Defs[x]
				}
				switch v := o.(type) {
				case *types.Var:
					if v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() || escaped[v] {
						shared = true
					}
				case nil:
					if x.Name != "_" {
						shared = true // not from the original source
					}
				}
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok {
					if _, ok := info.Uses[id].(*types.PkgName); ok {
						if _, ok := info.Uses[x.Sel].(*types.Var); ok {
							shared = true
						}
						return false
					}
				}
				shared = true
			case *ast.IndexExpr:
				if !basic(info.Types[x.X].Type) {
					shared = true
				}
			case *ast.SliceExpr:
				if !basic(info.Types[x.X].Type) {
					shared = true
				}
			case *ast.StarExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
				shared = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW || x.Op == token.AND {
					shared = true
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok {
					if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && len(x.Args) == 1 {
						if t := info.Types[x.Args[0]].Type; t != nil {
							if _, isMap := t.Underlying().(*types.Map); !isMap {
								return true
							}
						}
					}
				}
				for _, a := range x.Args {
					if tv := info.Types[a]; !tv.IsType() && !tv.IsNil() && !basic(tv.Type) {
						shared = true
					}
				}
			}
			return !shared
		})
	}
	return shared
}
