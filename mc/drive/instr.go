package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

const vsPath = "github.com/milosgajdos/netscrape/verifmc/vs"
const vatomicPath = "github.com/milosgajdos/netscrape/verifmc/vatomic"

// selectors maps package path and name to the replacement in package vs.
var selectors = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond",
		"NewCond": "NewCond", "Pool": "Pool", "Map": "Map", "Locker": "Locker",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "After": "After", "AfterFunc": "AfterFunc",
		"NewTimer": "NewTimer", "Timer": "Timer", "NewTicker": "NewTicker", "Ticker": "Ticker", "Tick": "Tick", "Sleep": "Sleep",
	},
	"context": {
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithTimeout": "WithTimeout",
		"WithTimeoutCause": "WithTimeoutCause", "WithDeadline": "WithDeadline", "WithDeadlineCause": "WithDeadlineCause",
		"Cause": "Cause", "AfterFunc": "CtxAfterFunc",
	},
	"runtime": {"Gosched": "Yield"},
}

// pkgInfo is what go list says about a package.
type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
}

type instrumenter struct {
	pkgs   map[string]*pkgInfo
	full   func(path string) bool // rewrite everything, not just map iteration
	strs   map[string]bool        // constants in the packages rewritten fully
	ints   map[int64]bool
	floats map[float64]bool
	in     map[string]map[int64]bool // ints by package
}

// constants collects the values of all constant expressions.
func (in *instrumenter) constants(path string, info *types.Info) {
	here := map[int64]bool{}
	in.in[path] = here
	for _, tv := range info.Types {
		if tv.Value == nil {
			continue
		}
		switch tv.Value.Kind() {
		case constant.String:
			if s := constant.StringVal(tv.Value); len(s) <= 48 && utf8.ValidString(s) {
				in.strs[s] = true
			}
		case constant.Int:
			if n, ok := constant.Int64Val(tv.Value); ok {
				in.floats[float64(n)] = true
				if n >= 0 {
					in.ints[n], here[n] = true, true
				}
			}
		case constant.Float:
			if f, _ := constant.Float64Val(tv.Value); !math.IsInf(f, 0) {
				in.floats[f] = true
			}
		}
	}
}

// dict is the dictionary of the constants, for the harnesses.
func (in *instrumenter) dict() []byte {
	var d struct {
		Strings []string
		Ints    []int64
		Floats  []float64
		In      map[string][]int64
	}
	d.In = map[string][]int64{}
	for path, ns := range in.in {
		for n := range ns {
			d.In[path] = append(d.In[path], n)
		}
	}
	for s := range in.strs {
		d.Strings = append(d.Strings, s)
	}
	for n := range in.ints {
		d.Ints = append(d.Ints, n)
	}
	sort.Slice(d.Strings, func(i, j int) bool {
		a, b := d.Strings[i], d.Strings[j]
		return len(a) < len(b) || len(a) == len(b) && a < b
	})
	for f := range in.floats {
		d.Floats = append(d.Floats, f)
	}
	sort.Float64s(d.Floats)
	sort.Slice(d.Ints, func(i, j int) bool { return d.Ints[i] < d.Ints[j] })
	if len(d.Strings) > 150 {
		d.Strings = d.Strings[:150]
	}
	b, _ := json.Marshal(d)
	return b
}

type rw struct {
	fset *token.FileSet
	src  []byte
	file *ast.File
	info *types.Info
	full bool
	n    int
	vs   bool
	va   bool
	err  error
	off  func(token.Pos) int
	used map[*ast.Ident]bool // package identifiers rewritten away
	dead map[*types.PkgName]int
}

// file rewrites the files of a package; the result maps file names to new text.
func (in *instrumenter) pkg(p *pkgInfo) (map[string][]byte, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range p.GoFiles {
		name := p.Dir + "/" + f
		src, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files, srcs, names = append(files, af), append(srcs, src), append(names, name)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		d := in.pkgs[path]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(d.Export)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return nil, err
	}
	if in.full(p.ImportPath) {
		in.constants(p.ImportPath, info)
	}
	out := map[string][]byte{}
	for i, f := range files {
		w := &rw{fset: fset, src: srcs[i], file: f, info: info, full: in.full(p.ImportPath),
			used: map[*ast.Ident]bool{}}
		tf := fset.File(f.Pos())
		w.off = func(p token.Pos) int { return tf.Offset(p) }
		b, changed, err := w.rewriteFile()
		if err != nil {
			return nil, fmt.Errorf("%s: %v", names[i], err)
		}
		if changed {
			out[names[i]] = b
		}
	}
	return out, nil
}

func (w *rw) fail(n ast.Node, msg string) {
	if w.err == nil {
		w.err = fmt.Errorf("%v: %s", w.fset.Position(n.Pos()), msg)
	}
}

func (w *rw) rewriteFile() (b []byte, changed bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	var body strings.Builder
	pos := w.file.Name.End()
	head := string(w.src[:w.off(pos)])
	for _, d := range w.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		body.WriteString("")
	}
	// text of imports and declarations in order; imports are patched below
	type patch struct {
		from, to int
		text     string
	}
	var patches []patch
	for _, d := range w.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		from, to := w.off(d.Pos()), w.off(d.End())
		t := w.node(d)
		if t != string(w.src[from:to]) {
			patches = append(patches, patch{from, to, t})
		}
	}
	if w.err != nil {
		return nil, false, w.err
	}
	if len(patches) == 0 {
		return nil, false, nil
	}
	// imports without remaining uses
	left := map[*types.PkgName]int{}
	ast.Inspect(w.file, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && !w.used[id] {
			if p, ok := w.info.Uses[id].(*types.PkgName); ok {
				left[p]++
			}
		}
		return true
	})
	gone := map[string]bool{}
	for id := range w.used {
		if p, ok := w.info.Uses[id].(*types.PkgName); ok && left[p] == 0 {
			gone[p.Imported().Path()+" "+p.Name()] = true
		}
	}
	var imps []patch
	for _, s := range w.file.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		for k := range gone {
			if strings.HasPrefix(k, path+" ") {
				if s.Name != nil && !strings.HasSuffix(k, " "+s.Name.Name) {
					continue
				}
				from := w.off(s.Path.Pos())
				if s.Name != nil {
					from = w.off(s.Name.Pos())
				}
				imps = append(imps, patch{from, w.off(s.Path.End()), "_ " + s.Path.Value})
				break
			}
		}
	}
	patches = append(imps, patches...)
	// build constraints of the file are known to hold
	lines := strings.Split(head, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//go:build") || strings.HasPrefix(t, "// +build") || strings.HasPrefix(t, "//+build") {
			lines[i] = "//"
		}
	}
	var out strings.Builder
	out.WriteString("//go:build go1.21\n\n//line " + w.fset.File(w.file.Pos()).Name() + ":1\n")
	out.WriteString(strings.Join(lines, "\n"))
	if w.vs {
		out.WriteString("; import verifvs " + strconv.Quote(vsPath))
	}
	if w.va {
		out.WriteString("; import verifva " + strconv.Quote(vatomicPath))
	}
	p := w.off(pos)
	for _, x := range patches {
		out.Write(w.src[p:x.from])
		out.WriteString(x.text)
		p = x.to
	}
	out.Write(w.src[p:])
	return []byte(out.String()), true, nil
}

// node returns the rewritten text of n.
func (w *rw) node(n ast.Node) string {
	if s, ok := w.special(n); ok {
		return s
	}
	return w.inner(n)
}

// inner returns the text of n with its children rewritten.
func (w *rw) inner(n ast.Node) string {
	var out strings.Builder
	pos := n.Pos()
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if _, ok := c.(*ast.CommentGroup); ok {
			return false
		}
		if s, ok := w.special(c); ok {
			if c.Pos() < pos {
				panic("unexpected order of nodes")
			}
			out.Write(w.src[w.off(pos):w.off(c.Pos())])
			out.WriteString(s)
			pos = c.End()
			return false
		}
		return true
	})
	out.Write(w.src[w.off(pos):w.off(n.End())])
	return out.String()
}

func (w *rw) tmp() string {
	w.n++
	return "verif" + strconv.Itoa(w.n)
}

func (w *rw) typeOf(e ast.Expr) types.Type {
	if t, ok := w.info.Types[e]; ok && t.Type != nil {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := w.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func under(t types.Type) types.Type { return t.Underlying() }

func (w *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = w.info.Uses[id].(*types.Builtin)
	return ok
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (w *rw) recv2(e ast.Expr) (string, bool) {
	u, ok := isRecv(e)
	if !ok {
		return "", false
	}
	w.vs = true
	return "verifvs.Recv2(" + w.node(u.X) + ")", true
}

func (w *rw) exprs(es []ast.Expr) string {
	var s []string
	for _, e := range es {
		s = append(s, w.node(e))
	}
	return strings.Join(s, ", ")
}

// special rewrites n itself if that is needed.
func (w *rw) special(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.RangeStmt:
		return w.rangeStmt(n)
	}
	if !w.full {
		return "", false
	}
	switch n := n.(type) {
	case *ast.SelectorExpr:
		id, ok := n.X.(*ast.Ident)
		if !ok {
			return "", false
		}
		p, ok := w.info.Uses[id].(*types.PkgName)
		if !ok {
			return "", false
		}
		path := p.Imported().Path()
		if path == "sync/atomic" {
			w.used[id] = true
			w.va = true
			return "verifva." + n.Sel.Name, true
		}
		if r, ok := selectors[path][n.Sel.Name]; ok {
			w.used[id] = true
			w.vs = true
			return "verifvs." + r, true
		}
	case *ast.CallExpr:
		if w.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
			w.vs = true
			return "verifvs.Close(" + w.node(n.Args[0]) + ")", true
		}
		if w.isBuiltin(n.Fun, "len") && len(n.Args) == 1 {
			if c, ok := under(w.typeOf(n.Args[0])).(*types.Chan); ok && c.Dir() != types.SendOnly {
				w.vs = true
				return "verifvs.Len(" + w.node(n.Args[0]) + ")", true
			}
		}
	case *ast.SendStmt:
		w.vs = true
		return "verifvs.SendTo(" + w.node(n.Chan) + ")(" + w.node(n.Value) + ")", true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			w.vs = true
			return "verifvs.Recv(" + w.node(n.X) + ")", true
		}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if s, ok := w.recv2(n.Rhs[0]); ok {
				return w.exprs(n.Lhs) + " " + n.Tok.String() + " " + s, true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if s, ok := w.recv2(n.Values[0]); ok {
				t := ""
				if n.Type != nil {
					t = " " + w.node(n.Type)
				}
				return n.Names[0].Name + ", " + n.Names[1].Name + t + " = " + s, true
			}
		}
	case *ast.GoStmt:
		return w.goStmt(n), true
	case *ast.SelectStmt:
		return w.selectStmt(n, ""), true
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(s, n.Label.Name), true
		}
	}
	return "", false
}

func (w *rw) goStmt(n *ast.GoStmt) string {
	w.vs = true
	call := n.Call
	var pre strings.Builder
	pre.WriteString("{ ")
	fun := ""
	builtin := false
	if id, ok := ast.Unparen(call.Fun).(*ast.Ident); ok {
		if _, ok := w.info.Uses[id].(*types.Builtin); ok {
			builtin = true
		}
	}
	switch {
	case builtin:
		fun = w.inner(call.Fun)
		if w.isBuiltin(call.Fun, "close") {
			fun = "verifvs.Close"
		}
	default:
		fun = w.tmp()
		pre.WriteString(fun + " := " + w.node(call.Fun) + "; ")
	}
	var args []string
	for _, a := range call.Args {
		tv := w.info.Types[a]
		inline := tv.IsNil() || tv.Value != nil || tv.IsType()
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			inline = true
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			inline = true
		}
		if tv.Value != nil && tv.Value.Kind() == constant.Unknown {
			inline = false
		}
		if inline {
			args = append(args, w.node(a))
			continue
		}
		v := w.tmp()
		pre.WriteString(v + " := " + w.node(a) + "; ")
		args = append(args, v)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	return pre.String() + "verifvs.Go(func() { " + fun + "(" + strings.Join(args, ", ") + dots + ") }) }"
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func (w *rw) rangeStmt(n *ast.RangeStmt) (string, bool) {
	var mk string
	t := w.typeOf(n.X)
	var kt, vt types.Type
	switch u := under(t).(type) {
	case *types.Map:
		mk, kt, vt = "verifvs.Iter", u.Key(), u.Elem()
	case *types.Chan:
		if !w.full {
			return "", false
		}
		mk, kt = "verifvs.ChanIter", u.Elem()
	default:
		return "", false
	}
	w.vs = true
	it := w.tmp()
	x := w.node(n.X)
	body := w.node(n.Body)
	names := []string{"_", "_"}
	refs := []string{"nil", "nil"}
	es := []ast.Expr{n.Key, n.Value}
	ts := []types.Type{kt, vt}
	for i, e := range es {
		if blank(e) {
			continue
		}
		if n.Tok == token.DEFINE {
			names[i] = e.(*ast.Ident).Name
		} else if vti := w.typeOf(e); !types.Identical(vti, ts[i]) {
			w.fail(n, "range assigns to a variable of another type")
			return "", false
		}
		refs[i] = "&" + w.node(e)
	}
	if mk == "verifvs.ChanIter" {
		names, refs = names[:1], refs[:1]
	}
	return "for " + it + ", " + strings.Join(names, ", ") + " := " + mk + "(" + x + "); " +
		it + ".Next(" + strings.Join(refs, ", ") + "); " + body, true
}

func (w *rw) selectStmt(n *ast.SelectStmt, label string) string {
	w.vs = true
	var pre, sw strings.Builder
	var cases []string
	hasD := false
	dflt := ""
	i := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		var body strings.Builder
		for _, s := range cc.Body {
			body.WriteString("\n" + w.lineOf(s) + w.node(s))
		}
		if cc.Comm == nil {
			hasD = true
			dflt = body.String()
			continue
		}
		v := w.tmp()
		bind := ""
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			pre.WriteString(v + " := verifvs.SendCase(" + w.node(s.Chan) + ")(" + w.node(s.Value) + "); ")
		case *ast.ExprStmt:
			u, ok := isRecv(s.X)
			if !ok {
				w.fail(n, "select case")
				return ""
			}
			pre.WriteString(v + " := verifvs.RecvCase(" + w.node(u.X) + "); ")
		case *ast.AssignStmt:
			u, ok := isRecv(s.Rhs[0])
			if !ok {
				w.fail(n, "select case")
				return ""
			}
			pre.WriteString(v + " := verifvs.RecvCase(" + w.node(u.X) + "); ")
			m := ".Val()"
			if len(s.Lhs) == 2 {
				m = ".Val2()"
			}
			bind = w.exprs(s.Lhs) + " " + s.Tok.String() + " " + v + m + "; "
		}
		fmt.Fprintf(&sw, "\ncase %d: %s%s", i, bind, body.String())
		cases = append(cases, v)
		i++
	}
	if hasD {
		sw.WriteString("\ndefault: " + dflt)
	} else {
		sw.WriteString("\ndefault: panic(\"verif: select\")")
	}
	if label != "" {
		label += ": "
	}
	args := "false"
	if hasD {
		args = "true"
	}
	for _, c := range cases {
		args += ", " + c
	}
	return "{ " + pre.String() + label + "switch verifvs.Select(" + args + ") {" + sw.String() + "\n}}"
}

// lineOf keeps positions in line with the original file.
func (w *rw) lineOf(n ast.Node) string {
	p := w.fset.Position(n.Pos())
	return fmt.Sprintf("//line %s:%d\n", p.Filename, p.Line)
}
