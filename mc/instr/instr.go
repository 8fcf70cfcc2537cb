// Package instr rewrites Go packages so that everything that depends on
// scheduling, time or iteration order goes through the model checker runtime
// vmc/vs, and (optionally) every access to shared memory is reported to its
// race detector. Line structure and behaviour are otherwise kept.
package instr

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
)

// Swap maps import paths to their replacements.
var Swap = map[string]string{
	"sync":                               "vmc/vsync",
	"sync/atomic":                        "vmc/vatomic",
	"time":                               "vmc/vtime",
	"context":                            "vmc/vcontext",
	"math/rand":                          "vmc/vrand",
	"math/rand/v2":                       "vmc/vrand",
	"crypto/rand":                        "vmc/vcrand",
	"maps":                               "vmc/vmaps",
	"net/http":                           "vmc/vhttp",
	"os/signal":                          "vmc/vsignal",
	"k8s.io/client-go/tools/portforward": "vmcwork/fakek8s/portforward",
	"k8s.io/client-go/transport/spdy":    "vmcwork/fakek8s/spdy",
	"k8s.io/client-go/kubernetes":        "vmcwork/fakek8s/kubernetes",
}

var swapName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context",
	"math/rand": "rand", "math/rand/v2": "rand", "crypto/rand": "rand", "maps": "maps", "net/http": "http", "os/signal": "signal",
	"k8s.io/client-go/tools/portforward": "portforward", "k8s.io/client-go/transport/spdy": "spdy",
	"k8s.io/client-go/kubernetes": "kubernetes",
}

// Package to instrument.
type Package struct {
	ImportPath string
	Name       string
	Dir        string
	Files      []string // base names
	GoVersion  string   // language version of its module, "1.21"
	Out        string   // output directory
	Mem        bool     // instrument memory accesses
	RelDir     string   // for site names
	ImportMap  map[string]string
}

// Loader resolves export data.
type Loader struct {
	Export map[string]string // import path -> export file
	// Instrumented import paths: calls into others are taken to be free of
	// synchronisation.
	Instrumented map[string]bool
}

type rw struct {
	l         *Loader
	p         *Package
	fset      *token.FileSet
	info      *types.Info
	src       []byte
	file      *token.File
	base      int
	captured  map[*types.Var]bool
	addrTaken map[*types.Var]bool
	sites     map[int32]string
	n         int
	perLoop   bool // loop variables are per loop (before go1.22)
	used      bool // vs import needed
	label     string
	qual      types.Qualifier
}

// Instrument rewrites p into p.Out.
func (l *Loader) Instrument(p *Package) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("instrument %s: %v\n%s", p.ImportPath, r, debug.Stack())
		}
	}()
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.Files {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, b)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		Scopes: map[ast.Node]*types.Scope{},
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := l.Export[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, FakeImportC: true, GoVersion: "go" + p.GoVersion}
	if p.GoVersion == "" {
		conf.GoVersion = ""
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return fmt.Errorf("typecheck %s: %v", p.ImportPath, err)
	}
	r := &rw{l: l, p: p, fset: fset, info: info, captured: map[*types.Var]bool{}, addrTaken: map[*types.Var]bool{}, sites: map[int32]string{}}
	r.perLoop = before122(p.GoVersion)
	for _, f := range files {
		r.analyse(f)
	}
	if err := os.MkdirAll(p.Out, 0o755); err != nil {
		return err
	}
	for i, f := range files {
		r.src = srcs[i]
		r.file = fset.File(f.Pos())
		r.base = r.file.Base()
		r.used = false
		out := r.renderFile(f)
		if err := os.WriteFile(filepath.Join(p.Out, p.Files[i]), []byte(out), 0o644); err != nil {
			return err
		}
	}
	if len(r.sites) > 0 {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport \"vmc/vs\"\n\nfunc init() {\n\tvs.RegSites(map[int32]string{\n", p.Name)
		var ks []int32
		for k := range r.sites {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		for _, k := range ks {
			fmt.Fprintf(&b, "\t\t%d: %q,\n", k, r.sites[k])
		}
		b.WriteString("\t})\n}\n")
		if err := os.WriteFile(filepath.Join(p.Out, "vmc_sites.go"), []byte(b.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func before122(v string) bool {
	var maj, min int
	fmt.Sscanf(v, "%d.%d", &maj, &min)
	return maj == 1 && min < 22 && v != ""
}

// ---- analysis

func (r *rw) analyse(f *ast.File) {
	owner := map[*types.Var]ast.Node{} // innermost function of the declaration
	var stack []ast.Node
	var funcs []ast.Node
	cur := func() ast.Node {
		if len(funcs) == 0 {
			return nil
		}
		return funcs[len(funcs)-1]
	}
	// definitions first
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if len(funcs) > 0 && funcs[len(funcs)-1] == top {
				funcs = funcs[:len(funcs)-1]
			}
			return true
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			funcs = append(funcs, n)
		case *ast.Ident:
			if v, ok := r.info.Defs[n].(*types.Var); ok && !v.IsField() {
				owner[v] = cur()
			}
		case *ast.CaseClause:
			if v, ok := r.info.Implicits[n].(*types.Var); ok {
				owner[v] = cur()
			}
		}
		return true
	})
	stack, funcs = nil, nil
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if len(funcs) > 0 && funcs[len(funcs)-1] == top {
				funcs = funcs[:len(funcs)-1]
			}
			return true
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			funcs = append(funcs, n)
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() {
				if o, ok := owner[v]; ok && o != cur() {
					r.captured[v] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				r.markAddr(n.X)
			}
		case *ast.SliceExpr:
			if t := r.typeOf(n.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					r.markAddr(n.X)
				}
			}
		case *ast.SelectorExpr:
			if s := r.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
				if fn, ok := s.Obj().(*types.Func); ok {
					if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
						if _, ok := sig.Recv().Type().(*types.Pointer); ok {
							r.markAddr(n.X)
						}
					}
				}
			}
		}
		return true
	})
}

func (r *rw) markAddr(e ast.Expr) {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if t := r.typeOf(x.X); t == nil || isPtr(t) {
				return
			}
			e = x.X
		case *ast.IndexExpr:
			if t := r.typeOf(x.X); t == nil {
				return
			} else if _, ok := t.Underlying().(*types.Array); !ok {
				return
			}
			e = x.X
		case *ast.Ident:
			if v, ok := r.info.Uses[x].(*types.Var); ok {
				if !isPtr(v.Type()) || true {
					r.addrTaken[v] = true
				}
			}
			return
		default:
			return
		}
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

// ---- text helpers

func (r *rw) off(p token.Pos) int { return int(p) - r.base }

func (r *rw) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func children(n ast.Node) []ast.Node {
	var out []ast.Node
	depth := 0
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			depth--
			return true
		}
		if depth == 1 {
			if _, ok := c.(*ast.CommentGroup); !ok {
				out = append(out, c)
			}
			return false // no matching nil for this node
		}
		depth++
		return true
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// splice copies the source of n replacing its children by their rendering.
func (r *rw) splice(n ast.Node, f func(ast.Node) string) string {
	var b strings.Builder
	pos := r.off(n.Pos())
	end := r.off(n.End())
	for _, c := range children(n) {
		cp, ce := r.off(c.Pos()), r.off(c.End())
		if cp < pos || ce > end {
			continue
		}
		b.Write(r.src[pos:cp])
		b.WriteString(f(c))
		pos = ce
	}
	b.Write(r.src[pos:end])
	return b.String()
}

func (r *rw) tmp(s string) string {
	r.n++
	return fmt.Sprintf("vmc%s%d", s, r.n)
}

func (r *rw) site(n ast.Node, what string) string {
	pos := r.fset.Position(n.Pos())
	s := fmt.Sprintf("%s:%d (%s)", filepath.Join(r.p.RelDir, filepath.Base(pos.Filename)), pos.Line, what)
	h := fnv.New32a()
	h.Write([]byte(s))
	id := int32(h.Sum32() & 0x7fffffff)
	for {
		if old, ok := r.sites[id]; !ok || old == s {
			break
		}
		id++
	}
	r.sites[id] = s
	return fmt.Sprint(id)
}

func (r *rw) vs(f string) string {
	r.used = true
	return "vmcvs." + f
}

func oneLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// ---- files

func (r *rw) renderFile(f *ast.File) string {
	body := r.splice(f, func(c ast.Node) string {
		switch c := c.(type) {
		case *ast.GenDecl:
			if c.Tok == token.IMPORT {
				return r.renderImports(c)
			}
		}
		return r.render(c)
	})
	// keep what precedes the package clause out of splice's range
	head := string(r.src[:r.off(f.Pos())])
	tail := string(r.src[r.off(f.End()):])
	out := head + body + tail
	if r.used {
		// same line as the package clause so that line numbers are kept
		i := r.off(f.Name.End())
		out = out[:i] + "; import vmcvs \"vmc/vs\"" + out[i:]
	}
	return out
}

func (r *rw) renderImports(d *ast.GenDecl) string {
	return r.splice(d, func(c ast.Node) string {
		s, ok := c.(*ast.ImportSpec)
		if !ok {
			return r.text(c)
		}
		path := strings.Trim(s.Path.Value, "\"`")
		n, ok := Swap[path]
		if strings.HasPrefix(r.p.ImportPath, "vmcwork/fakek8s/") && strings.HasPrefix(path, "k8s.io/") {
			ok = false
		}
		if !ok || (s.Name != nil && s.Name.Name == "_") {
			return r.text(c)
		}
		name := swapName[path]
		if s.Name != nil {
			name = s.Name.Name
		}
		return fmt.Sprintf("%s %q", name, n)
	})
}

// ---- rendering

func (r *rw) render(n ast.Node) string {
	switch n := n.(type) {
	case nil:
		return ""
	case *ast.FuncDecl:
		return r.splice(n, func(c ast.Node) string {
			if b, ok := c.(*ast.BlockStmt); ok && b == n.Body {
				return r.funcBody(b)
			}
			if _, ok := c.(*ast.Ident); ok {
				return r.text(c)
			}
			return r.render(c)
		})
	case *ast.FieldList, *ast.Field, *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.ArrayType, *ast.MapType, *ast.ChanType, *ast.TypeSpec, *ast.ImportSpec, *ast.BasicLit, *ast.BranchStmt:
		return r.text(n)
	case ast.Stmt:
		return r.stmt(n)
	case ast.Expr:
		return r.value(n)
	case *ast.ValueSpec:
		return r.valueSpec(n)
	case *ast.CaseClause:
		// reached only through splice of switch bodies
		return r.caseClause(n)
	default:
		return r.splice(n, r.render)
	}
}

func (r *rw) valueSpec(n *ast.ValueSpec) string {
	if len(n.Names) == 2 && len(n.Values) == 1 {
		if u := recvOf(n.Values[0]); u != nil {
			// var v, ok = <-ch
			return r.splice(n, func(c ast.Node) string {
				if c == ast.Node(n.Values[0]) {
					return r.vs("Recv2") + "(" + r.value(u.X) + ")"
				}
				return r.text(c)
			})
		}
	}
	return r.splice(n, func(c ast.Node) string {
		for _, v := range n.Values {
			if c == ast.Node(v) {
				return r.value(v)
			}
		}
		return r.text(c)
	})
}

func (r *rw) funcBody(b *ast.BlockStmt) string {
	s := r.block(b)
	return "{ " + r.vs("Tick") + "(); " + s[1:]
}

func (r *rw) loopBody(b *ast.BlockStmt, prologue string) string {
	s := r.block(b)
	return "{ " + r.vs("Tick") + "(); " + prologue + s[1:]
}

func (r *rw) block(b *ast.BlockStmt) string {
	return r.splice(b, r.render)
}

func (r *rw) caseClause(n *ast.CaseClause) string {
	return r.splice(n, r.render)
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// value renders e where its value is used.
func (r *rw) value(e ast.Expr) string {
	if tv, ok := r.info.Types[e]; ok {
		if tv.IsType() {
			return r.typeText(e)
		}
		if tv.Value != nil { // constants
			return r.text(e)
		}
	}
	switch x := e.(type) {
	case *ast.BasicLit:
		return r.text(x)
	case *ast.SelectorExpr:
		if fn, ok := r.info.Uses[x.Sel].(*types.Func); ok && fn.FullName() == "os.Exit" {
			return r.vs("ExitOf") + "(" + r.text(x) + ")"
		}
		return r.access(e)
	case *ast.ParenExpr:
		return "(" + r.value(x.X) + ")"
	case *ast.FuncLit:
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.Body) {
				return r.funcBody(x.Body)
			}
			return r.text(c)
		})
	case *ast.CompositeLit:
		return r.composite(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return r.vs("Recv") + "(" + r.value(x.X) + ")"
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return "&" + r.value(x.X)
			}
			return "&" + r.path(x.X)
		}
		return r.splice(x, r.render)
	case *ast.CallExpr:
		return r.call(x)
	case *ast.Ident, *ast.IndexExpr, *ast.StarExpr:
		return r.access(e)
	case *ast.SliceExpr:
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.X) {
				if t := r.typeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						return r.path(x.X)
					}
				}
			}
			return r.render(c)
		})
	case *ast.KeyValueExpr:
		return r.splice(x, r.render)
	case *ast.TypeAssertExpr:
		return r.splice(x, func(c ast.Node) string {
			if x.Type != nil && c == ast.Node(x.Type) {
				return r.text(c)
			}
			return r.render(c)
		})
	case *ast.IndexListExpr:
		return r.text(x)
	}
	return r.splice(e, r.render)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) typeText(e ast.Expr) string { return r.text(e) }

func (r *rw) composite(x *ast.CompositeLit) string {
	t := r.typeOf(x)
	isStruct := false
	if t != nil {
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		_, isStruct = u.(*types.Struct)
	}
	return r.splice(x, func(c ast.Node) string {
		if x.Type != nil && c == ast.Node(x.Type) {
			return r.text(c)
		}
		if kv, ok := c.(*ast.KeyValueExpr); ok {
			return r.splice(kv, func(d ast.Node) string {
				if d == ast.Node(kv.Key) && isStruct {
					return r.text(d)
				}
				return r.render(d)
			})
		}
		return r.render(c)
	})
}

// call renders a call expression.
func (r *rw) call(x *ast.CallExpr) string {
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() { // conversion
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.Fun) {
				return r.text(c)
			}
			return r.render(c)
		})
	}
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return r.builtin(x, b.Name())
		}
	}
	if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
		if o, ok := r.info.Uses[s.Sel].(*types.Builtin); ok { // unsafe.X
			_ = o
			return r.text(x)
		}
	}
	return r.splice(x, func(c ast.Node) string {
		if c == ast.Node(x.Fun) {
			return r.callee(x.Fun)
		}
		if r.stdoutAsWriter(x, c) {
			return r.vs("Stdout") + "(" + r.text(c) + ")"
		}
		return r.render(c)
	})
}

// stdoutAsWriter reports whether c is os.Stdout given for an interface
// parameter of the call.
func (r *rw) stdoutAsWriter(x *ast.CallExpr, c ast.Node) bool {
	e, ok := c.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	v, ok := r.info.Uses[e.Sel].(*types.Var)
	if !ok || v.Pkg() == nil || v.Pkg().Path() != "os" || v.Name() != "Stdout" {
		return false
	}
	sig, ok := r.typeOf(x.Fun).(*types.Signature)
	if !ok {
		return false
	}
	for i, a := range x.Args {
		if a != ast.Expr(e) || i >= sig.Params().Len() || sig.Variadic() && i == sig.Params().Len()-1 {
			continue
		}
		_, named := sig.Params().At(i).Type().(*types.TypeParam)
		return !named && types.IsInterface(sig.Params().At(i).Type())
	}
	return false
}

// callee renders the function operand of a call.
func (r *rw) callee(f ast.Expr) string {
	switch x := f.(type) {
	case *ast.ParenExpr:
		return "(" + r.callee(x.X) + ")"
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
			return r.methodOperand(x) + string(r.src[r.off(x.X.End()):r.off(x.End())])
		}
		return r.value(f)
	case *ast.Ident:
		if _, ok := r.info.Uses[x].(*types.Func); ok {
			return r.text(x)
		}
		return r.value(f)
	case *ast.IndexExpr:
		if id, ok := unparen(x.X).(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.Func); ok {
				return r.text(x)
			}
		}
		if s, ok := unparen(x.X).(*ast.SelectorExpr); ok {
			if _, ok := r.info.Uses[s.Sel].(*types.Func); ok {
				return r.text(x)
			}
		}
		return r.value(f)
	}
	return r.value(f)
}

// methodOperand renders the receiver operand of a method selector.
func (r *rw) methodOperand(x *ast.SelectorExpr) string {
	s := r.info.Selections[x]
	fn, _ := s.Obj().(*types.Func)
	if fn != nil {
		if sig := fn.Type().(*types.Signature); sig.Recv() != nil {
			if _, ok := sig.Recv().Type().(*types.Pointer); ok && !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
				return r.path(x.X) // &x taken implicitly
			}
		}
	}
	if t := r.typeOf(x.X); t != nil && (skipType(t) || len(s.Index()) > 1 && !isPtr(t) && r.addressable(x.X)) {
		return r.path(x.X)
	}
	return r.value(x.X)
}

func (r *rw) builtin(x *ast.CallExpr, name string) string {
	dflt := func() string {
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.Fun) {
				return r.text(c)
			}
			return r.render(c)
		})
	}
	switch name {
	case "close":
		return r.vs("Close") + "(" + r.value(x.Args[0]) + ")"
	case "len":
		t := r.typeOf(x.Args[0])
		if isChan(t) {
			return r.vs("Len") + "(" + r.value(x.Args[0]) + ")"
		}
		if isMap(t) && r.p.Mem && r.sharedMap(x.Args[0]) {
			return "len(" + r.vs("MapR") + "(" + r.value(x.Args[0]) + ", " + r.site(x, "map "+oneLine(r.text(x.Args[0]))) + "))"
		}
		if t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			if _, ok := u.(*types.Array); ok {
				return r.text(x)
			}
		}
	case "delete":
		if r.p.Mem && isMap(r.typeOf(x.Args[0])) && r.sharedMap(x.Args[0]) && !r.hasCall(x.Args[1]) {
			return "delete(" + r.vs("MapW") + "(" + r.value(x.Args[0]) + ", " + r.site(x, "map "+oneLine(r.text(x.Args[0]))) + "), " + r.value(x.Args[1]) + ")"
		}
	case "clear":
		if r.p.Mem && isMap(r.typeOf(x.Args[0])) && r.sharedMap(x.Args[0]) {
			return "clear(" + r.vs("MapW") + "(" + r.value(x.Args[0]) + ", " + r.site(x, "map "+oneLine(r.text(x.Args[0]))) + "))"
		}
	case "new", "make":
		return r.splice(x, func(c ast.Node) string {
			if c == ast.Node(x.Fun) || c == ast.Node(x.Args[0]) {
				return r.text(c)
			}
			return r.render(c)
		})
	case "cap":
		return r.text(x)
	}
	return dflt()
}

// hasCall reports whether evaluating e may synchronise.
func (r *rw) hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			var o types.Object
			switch f := unparen(n.Fun).(type) {
			case *ast.Ident:
				o = r.info.Uses[f]
			case *ast.SelectorExpr:
				o = r.info.Uses[f.Sel]
			}
			if fn, ok := o.(*types.Func); ok && fn.Pkg() != nil && !r.l.Instrumented[fn.Pkg().Path()] && Swap[fn.Pkg().Path()] == "" {
				if sig := fn.Type().(*types.Signature); sig.Recv() == nil || !types.IsInterface(sig.Recv().Type()) {
					return true
				}
			}
			found = true
		}
		return true
	})
	return found
}

// ---- memory

// skipType: values of synchronisation types are not plain memory.
func skipType(t types.Type) bool { return skip(t, 0) }

func skip(t types.Type, depth int) bool {
	if t == nil || depth > 6 {
		return true
	}
	switch t := t.(type) {
	case *types.Alias:
		return skip(types.Unalias(t), depth)
	case *types.TypeParam:
		return true
	case *types.Named:
		if p := t.Obj().Pkg(); p != nil {
			switch p.Path() {
			case "sync", "sync/atomic":
				return t.Obj().Name() != "Locker"
			}
		}
		return skip(t.Underlying(), depth+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if skip(t.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return skip(t.Elem(), depth+1)
	}
	return false
}

func (r *rw) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil { // qualified identifier
			_, ok := r.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() || isPtr(r.typeOf(x.X)) {
			return true
		}
		return r.addressable(x.X)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.(*types.TypeParam); ok {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.addressable(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// shared reports whether the memory of addressable e may be seen by another
// goroutine: reached through a pointer or slice, global, captured or address
// taken.
func (r *rw) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.Ident:
		v, ok := r.info.ObjectOf(x).(*types.Var)
		if !ok {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return r.l.Instrumented[v.Pkg().Path()] || v.Pkg().Path() == r.p.ImportPath
		}
		return r.captured[v] || r.addrTaken[v]
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			v, ok := r.info.Uses[x.Sel].(*types.Var)
			return ok && v.Pkg() != nil && r.l.Instrumented[v.Pkg().Path()]
		}
		if s.Indirect() || isPtr(r.typeOf(x.X)) {
			return true
		}
		return r.shared(x.X)
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return r.shared(x.X)
		}
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

// sharedMap: maps are reference types, every map that is not a fresh literal
// may be shared; purely local variables that are never captured still may
// alias a shared map.
func (r *rw) sharedMap(e ast.Expr) bool {
	switch unparen(e).(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

func (r *rw) isVarExpr(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && !v.IsField() && x.Name != "_"
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil {
			return s.Kind() == types.FieldVal
		}
		_, ok := r.info.Uses[x.Sel].(*types.Var)
		return ok
	case *ast.StarExpr, *ast.IndexExpr:
		tv, ok := r.info.Types[e]
		return ok && tv.IsValue()
	}
	return false
}

// access renders a variable-like expression in value position.
func (r *rw) access(e ast.Expr) string {
	if !r.isVarExpr(e) {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			if s := r.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				return r.methodOperand(x) + string(r.src[r.off(x.X.End()):r.off(x.End())])
			}
			return r.text(x)
		case *ast.Ident:
			return r.text(x)
		case *ast.IndexExpr: // generic instantiation
			return r.text(x)
		}
		return r.splice(e, r.render)
	}
	if x, ok := e.(*ast.IndexExpr); ok {
		if t := r.typeOf(x.X); isMap(t) {
			if r.p.Mem && r.sharedMap(x.X) && !r.hasCall(x.Index) {
				return r.vs("MapR") + "(" + r.value(x.X) + ", " + r.site(x, "map "+oneLine(r.text(x.X))) + ")[" + r.value(x.Index) + "]"
			}
			return r.value(x.X) + "[" + r.value(x.Index) + "]"
		}
	}
	if !r.p.Mem || !r.addressable(e) || !r.shared(e) || skipType(r.typeOf(e)) {
		return r.path(e)
	}
	if x, ok := e.(*ast.IndexExpr); ok && r.hasCall(x.Index) {
		return r.path(e)
	}
	return "(*" + r.vs("Rd") + "(&" + r.path(e) + ", " + r.site(e, oneLine(r.text(e))) + "))"
}

// path renders e as a place: only what has to be loaded to find the place is
// rendered as a value.
func (r *rw) path(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + r.path(x.X) + ")"
	case *ast.Ident:
		return r.text(x)
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			return r.text(x)
		}
		rest := string(r.src[r.off(x.X.End()):r.off(x.End())])
		if isPtr(r.typeOf(x.X)) || !r.addressable(x.X) {
			return r.value(x.X) + rest
		}
		return r.path(x.X) + rest
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok && r.addressable(x.X) {
				return r.path(x.X) + "[" + r.value(x.Index) + "]"
			}
		}
		return r.value(x.X) + "[" + r.value(x.Index) + "]"
	case *ast.StarExpr:
		return "*" + r.value(x.X)
	}
	return r.value(e)
}

// simplePath: re-evaluating the path after an assignment is harmless.
func (r *rw) simplePath(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.simplePath(x.X)
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			return true
		}
		return r.simplePath(x.X)
	case *ast.StarExpr:
		return r.simplePath(x.X)
	}
	return false
}

// lhs renders an assignment target. pure tells that the right hand side does
// not synchronise. post is a statement to run after the assignment.
func (r *rw) lhs(e ast.Expr, pure bool, define bool) (text, post string) {
	e0 := e
	e = unparen(e)
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" || r.info.Defs[id] != nil {
			return r.text(e0), ""
		}
	}
	if x, ok := e.(*ast.IndexExpr); ok && isMap(r.typeOf(x.X)) {
		if !r.p.Mem || !r.sharedMap(x.X) {
			return r.value(x.X) + "[" + r.value(x.Index) + "]", ""
		}
		s := r.site(x, "map "+oneLine(r.text(x.X)))
		if pure && !r.hasCall(x.Index) && !r.hasCall(x.X) {
			return r.vs("MapW") + "(" + r.value(x.X) + ", " + s + ")[" + r.value(x.Index) + "]", ""
		}
		if r.simplePath(x.X) {
			return r.value(x.X) + "[" + r.value(x.Index) + "]", r.vs("MapW") + "(" + r.path(x.X) + ", " + s + ")"
		}
		return r.value(x.X) + "[" + r.value(x.Index) + "]", ""
	}
	if !r.p.Mem || !r.addressable(e) || !r.shared(e) || skipType(r.typeOf(e)) {
		return r.path(e), ""
	}
	s := r.site(e, oneLine(r.text(e)))
	if !define && pure && !r.hasCall(e) {
		return "*" + r.vs("Wr") + "(&" + r.path(e) + ", " + s + ")", ""
	}
	if r.simplePath(e) {
		return r.path(e), r.vs("W") + "(&" + r.rawPath(e) + ", " + s + ")"
	}
	return r.path(e), ""
}

// rawPath is the path without read instrumentation.
func (r *rw) rawPath(e ast.Expr) string { return r.text(e) }

var _ = constant.MakeInt64
