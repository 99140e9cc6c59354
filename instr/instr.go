// Package instr rewrites the non-test sources of /repo for the simulator and
// produces a build overlay; nothing in /repo itself is changed.
//
// The rewriting works on syntax and types only, it knows no function or file
// of the repository by name:
//   - a yield point before every statement,
//   - every range over a map goes through rt.MapRange,
//   - every go statement goes through rt.Go, every channel operation through
//     rt's channel functions,
//   - imports of os, io/ioutil, sync, lib/pq and go/packages are redirected to
//     the simulator's shims,
//   - per package, a function that runs the package level initialisers again,
//     so that one process can simulate many runs of the program.
package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

const base = "github.com/frk/gosql/zzsim/"

// Shims maps import paths to their stand-ins.
var Shims = map[string]string{
	"os":                             base + "simos",
	"io/ioutil":                      base + "simioutil",
	"sync":                           base + "simsync",
	"github.com/lib/pq":              base + "simpq",
	"golang.org/x/tools/go/packages": base + "simpkgs",
}

// Options of one instrumentation.
type Options struct {
	Dir      string            // module directory
	Patterns []string          // packages to rewrite
	Out      string            // where the rewritten files go
	Shims    map[string]string // nil: Shims
	Yield    bool
	Reset    bool
	Env      []string
	// MainAs turns package main into an importable package of this name in MainDir.
	MainAs, MainDir string
}

// Stats says what was rewritten.
type Stats struct {
	Packages, Files, Yields, MapRanges, GoStmts, ChanOps, Imports, Vars int
	ResetPkgs                                                  []string // import paths that have ZZReset
	PkgNames                                                   map[string]string
}

type edit struct {
	off  int
	end  int // == off for an insertion
	text string
	prio int
}

// Instrument rewrites the packages and adds the results to overlay.
func Instrument(o Options, overlay map[string]string) (*Stats, error) {
	if o.Shims == nil {
		o.Shims = Shims
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: o.Dir,
		Env: append(os.Environ(), o.Env...),
	}
	pkgs, err := packages.Load(cfg, o.Patterns...)
	if err != nil {
		return nil, err
	}
	st := &Stats{PkgNames: map[string]string{}}
	site := 0
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, pkg := range pkgs {
		if len(pkg.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", pkg.PkgPath, pkg.Errors[0])
		}
		if len(pkg.Syntax) != len(pkg.CompiledGoFiles) {
			return nil, fmt.Errorf("%s: sources missing", pkg.PkgPath)
		}
		st.Packages++
		ip := &inst{o: &o, pkg: pkg, st: st, site: &site}
		for i, f := range pkg.Syntax {
			name := pkg.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			out, err := ip.file(f, src)
			if err != nil {
				return nil, fmt.Errorf("%s: %v", name, err)
			}
			dst := filepath.Join(o.Out, strings.ReplaceAll(pkg.PkgPath, "/", "_"), filepath.Base(name))
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return nil, err
			}
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return nil, err
			}
			if pkg.Name == "main" && o.MainAs != "" {
				name = filepath.Join(o.MainDir, filepath.Base(name))
			}
			overlay[name] = dst
			st.Files++
		}
		if o.Reset && (pkg.Name != "main" || o.MainAs != "") && len(pkg.CompiledGoFiles) > 0 {
			dir := filepath.Dir(pkg.CompiledGoFiles[0])
			if pkg.Name == "main" {
				dir = o.MainDir
			}
			dst := filepath.Join(o.Out, strings.ReplaceAll(pkg.PkgPath, "/", "_"), "zz_reset.go")
			if err := os.WriteFile(dst, ip.resetFile(), 0o644); err != nil {
				return nil, err
			}
			overlay[filepath.Join(dir, "zz_reset.go")] = dst
			st.ResetPkgs = append(st.ResetPkgs, pkg.PkgPath)
			st.PkgNames[pkg.PkgPath] = pkg.Name
		}
	}
	return st, nil
}

type inst struct {
	o     *Options
	pkg   *packages.Package
	st    *Stats
	site  *int
	inits []string // names of renamed init functions, in order
	// initializer statement functions by rhs expression
	ran map[ast.Expr]string
	n   int
}

func (ip *inst) file(f *ast.File, src []byte) ([]byte, error) {
	fset := ip.pkg.Fset
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	ins := func(at int, text string, prio int) { edits = append(edits, edit{at, at, text, prio}) }
	rep := func(a, b int, text string) { edits = append(edits, edit{a, b, text, 0}) }
	needRT := false
	if ip.ran == nil {
		ip.ran = map[ast.Expr]string{}
	}

	if ip.pkg.Name == "main" && ip.o.MainAs != "" {
		rep(off(f.Name.Pos()), off(f.Name.End()), ip.o.MainAs)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				rep(off(fd.Name.Pos()), off(fd.Name.End()), "ZZMain")
			}
		}
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		shim, ok := ip.o.Shims[path]
		if !ok {
			continue
		}
		ip.st.Imports++
		name := filepath.Base(path)
		if im.Name != nil {
			rep(off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(shim))
		} else {
			rep(off(im.Path.Pos()), off(im.Path.End()), name+" "+strconv.Quote(shim))
		}
	}

	stmtList := func(list []ast.Stmt) {
		for _, s := range list {
			if !ip.o.Yield {
				continue
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			*ip.site++
			ip.st.Yields++
			needRT = true
			ins(off(s.Pos()), fmt.Sprintf("zzrt.Y(%d); ", *ip.site), 1)
		}
	}

	// channel operations
	comma := map[ast.Expr]bool{} // receives of two values
	skip := map[ast.Node]bool{}  // operations that are parts of a select statement
	labeled := map[ast.Stmt]bool{}
	isChan := func(e ast.Expr) bool {
		tv, ok := ip.pkg.TypesInfo.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	arrow := func(e ast.Expr) *ast.UnaryExpr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW && isChan(u.X) {
			return u
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			labeled[n.Stmt] = true
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := arrow(n.Rhs[0]); u != nil {
					comma[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := arrow(n.Values[0]); u != nil {
					comma[u] = true
				}
			}
		}
		return true
	})
	chanOp := func() {
		needRT = true
		ip.st.ChanOps++
	}
	selectStmt := func(n *ast.SelectStmt) {
		text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
		for _, c := range n.Body.List {
			switch s := c.(*ast.CommClause).Comm.(type) {
			case *ast.SendStmt:
				skip[s] = true
			case *ast.ExprStmt:
				if u := arrow(s.X); u != nil {
					skip[u] = true
				}
			case *ast.AssignStmt:
				if u := arrow(s.Rhs[0]); u != nil {
					skip[u] = true
				}
			}
		}
		if labeled[n] {
			return
		}
		chanOp()
		var pre, args []string
		def := false
		for i, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			v := fmt.Sprintf("zzc%d", i)
			clause := fmt.Sprintf("case %d:", len(args))
			switch s := cc.Comm.(type) {
			case nil:
				def = true
				clause = "default:"
			case *ast.SendStmt:
				pre = append(pre, fmt.Sprintf("%s := zzrt.SendCase(%s)(%s)", v, text(s.Chan), text(s.Value)))
				args = append(args, v)
			case *ast.ExprStmt:
				pre = append(pre, fmt.Sprintf("%s := zzrt.RecvCase(%s)", v, text(arrow(s.X).X)))
				args = append(args, v)
			case *ast.AssignStmt:
				pre = append(pre, fmt.Sprintf("%s := zzrt.RecvCase(%s)", v, text(arrow(s.Rhs[0]).X)))
				args = append(args, v)
				got := ".Got()"
				lhs := text(s.Lhs[0])
				if len(s.Lhs) == 2 {
					got = ".Got2()"
					lhs += ", " + text(s.Lhs[1])
				}
				clause += fmt.Sprintf(" %s %s %s%s;", lhs, s.Tok, v, got)
			}
			rep(off(cc.Case), off(cc.Colon)+1, clause)
		}
		head := "{ "
		for _, p := range pre {
			head += p + "; "
		}
		head += fmt.Sprintf("switch zzrt.Select(%v", def)
		for _, a := range args {
			head += ", " + a
		}
		rep(off(n.Select), off(n.Body.Lbrace)+1, head+") {")
		tail := " }"
		if !def {
			tail = "; default: panic(\"unreachable\") }"
		}
		rep(off(n.Body.Rbrace), off(n.Body.Rbrace)+1, tail+" }")
	}

	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectStmt:
			selectStmt(n)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !skip[n] && isChan(n.X) {
				chanOp()
				fn := "zzrt.Recv("
				if comma[n] {
					fn = "zzrt.Recv2("
				}
				rep(off(n.OpPos), off(n.OpPos)+2, fn)
				ins(off(n.X.End()), ")", 0)
			}
		case *ast.SendStmt:
			if !skip[n] && isChan(n.Chan) {
				chanOp()
				ins(off(n.Chan.Pos()), "zzrt.Sender(", 2)
				rep(off(n.Chan.End()), off(n.Value.Pos()), ")(")
				ins(off(n.Value.End()), ")", 0)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := ip.pkg.TypesInfo.Uses[id].(*types.Builtin); ok && isChan(n.Args[0]) {
					chanOp()
					rep(off(id.Pos()), off(id.End()), "zzrt.Close")
				}
			}
		case *ast.BlockStmt:
			stmtList(n.List)
		case *ast.CaseClause:
			stmtList(n.Body)
		case *ast.CommClause:
			stmtList(n.Body)
		case *ast.SwitchStmt:
			// the clauses of a switch body are not statements to precede
			for _, c := range n.Body.List {
				ast.Inspect(c, func(ast.Node) bool { return false })
			}
		case *ast.RangeStmt:
			if tv, ok := ip.pkg.TypesInfo.Types[n.X]; ok && isMap(tv.Type) {
				needRT = true
				ip.st.MapRanges++
				ins(off(n.X.Pos()), "zzrt.MapRange(", 2)
				ins(off(n.X.End()), ")", 0)
			} else if isChan(n.X) {
				chanOp()
				body := "_ = zzv; "
				if n.Key != nil {
					body = fmt.Sprintf("%s %s zzv; ", src[off(n.Key.Pos()):off(n.Key.End())], n.Tok)
				}
				rep(off(n.For)+3, off(n.X.Pos()), " zzc, zzv, zzok := zzrt.RangeChan(")
				ins(off(n.X.End()), "); zzok; zzv, zzok = zzrt.Recv2(zzc)", 0)
				ins(off(n.Body.Lbrace)+1, body, 0)
			}
		case *ast.GoStmt:
			ip.st.GoStmts++
			needRT = true
			ip.goStmt(n, src, off, rep, ins)
		}
		return true
	})
	// drop yields placed directly before case clauses (switch/select bodies)
	edits = dropClauseYields(f, edits, off)

	if ip.o.Reset {
		// package level variables
		var b bytes.Buffer
		done := map[string]bool{}
		for _, init := range ip.pkg.TypesInfo.InitOrder {
			if !(f.FileStart <= init.Rhs.Pos() && init.Rhs.Pos() < f.FileEnd) {
				continue
			}
			var names []string
			allBlank := true
			for _, v := range init.Lhs {
				names = append(names, v.Name())
				done[v.Name()] = true
				if v.Name() != "_" {
					allBlank = false
				}
			}
			if allBlank {
				continue
			}
			ip.n++
			ip.st.Vars += len(names)
			fn := fmt.Sprintf("zzInit%d", ip.n)
			ip.ran[init.Rhs] = fn
			a, e := off(init.Rhs.Pos()), off(init.Rhs.End())
			fmt.Fprintf(&b, "\nfunc %s() { %s = %s }\n", fn, strings.Join(names, ", "), src[a:e])
		}
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) > 0 {
						continue
					}
					for _, id := range vs.Names {
						if id.Name == "_" || done[id.Name] {
							continue
						}
						ip.n++
						ip.st.Vars++
						fn := fmt.Sprintf("zzZero%d", ip.n)
						a, e := off(vs.Type.Pos()), off(vs.Type.End())
						fmt.Fprintf(&b, "\nfunc %s() { %s = *new(%s) }\n", fn, id.Name, src[a:e])
						ip.inits = append(ip.inits, "0"+fn)
					}
				}
			}
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.Name == "init" {
				ip.n++
				fn := fmt.Sprintf("zzInitFn%d", ip.n)
				rep(off(fd.Name.Pos()), off(fd.Name.End()), fn)
				fmt.Fprintf(&b, "\nfunc init() { %s() }\n", fn)
				ip.inits = append(ip.inits, "1"+fn)
			}
		}
		ins(len(src), b.String(), 0)
	}
	if needRT {
		ins(off(f.Name.End()), "; import zzrt \""+base+"rt\"", 0)
	}
	return apply(src, edits)
}

// goStmt turns `go f(a, b)` into a block that evaluates f, a and b now and
// hands the call to rt.Go.
func (ip *inst) goStmt(n *ast.GoStmt, src []byte, off func(token.Pos) int, rep func(int, int, string), ins func(int, string, int)) {
	call := n.Call
	text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		rep(off(n.Go), off(fl.Pos()), "zzrt.Go(")
		rep(off(fl.End()), off(call.End()), ")")
		return
	}
	var pre, args []string
	if _, ok := call.Fun.(*ast.FuncLit); ok {
		// keep the literal's text (and the edits inside it) in place
		for i, a := range call.Args {
			if tv := ip.pkg.TypesInfo.Types[a]; tv.Value != nil || tv.IsNil() {
				args = append(args, text(a))
				continue
			}
			pre = append(pre, fmt.Sprintf("zza%d := %s", i, text(a)))
			args = append(args, fmt.Sprintf("zza%d", i))
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		rep(off(n.Go), off(call.Fun.Pos()), "{ "+strings.Join(pre, "; ")+"; zzrt.Go(func() { ")
		rep(off(call.Fun.End()), off(call.End()), "("+strings.Join(args, ", ")+ell+") }) }")
		return
	}
	pre = append(pre, "zzf := "+text(call.Fun))
	for i, a := range call.Args {
		if tv := ip.pkg.TypesInfo.Types[a]; tv.Value != nil || tv.IsNil() {
			args = append(args, text(a))
			continue
		}
		pre = append(pre, fmt.Sprintf("zza%d := %s", i, text(a)))
		args = append(args, fmt.Sprintf("zza%d", i))
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	rep(off(n.Pos()), off(n.End()), "{ "+strings.Join(pre, "; ")+"; zzrt.Go(func() { zzf("+strings.Join(args, ", ")+ell+") }) }")
}

func dropClauseYields(f *ast.File, edits []edit, off func(token.Pos) int) []edit {
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CaseClause:
			bad[off(n.Pos())] = true
		case *ast.CommClause:
			bad[off(n.Pos())] = true
		}
		return true
	})
	out := edits[:0]
	for _, e := range edits {
		if e.prio == 1 && bad[e.off] {
			continue
		}
		out = append(out, e)
	}
	return out
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint().Underlying()
		return false && t != nil
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func apply(src []byte, edits []edit) ([]byte, error) {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var b bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.off < at {
			continue // inside a replaced range
		}
		b.Write(src[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:])
	return b.Bytes(), nil
}

func (ip *inst) resetFile() []byte {
	var b bytes.Buffer
	name := ip.pkg.Name
	if name == "main" && ip.o.MainAs != "" {
		name = ip.o.MainAs
	}
	fmt.Fprintf(&b, "package %s\n\n// ZZReset runs the package's initialisation again.\nfunc ZZReset() {\n", name)
	for _, n := range ip.inits {
		if n[0] == '0' {
			fmt.Fprintf(&b, "\t%s()\n", n[1:])
		}
	}
	for _, init := range ip.pkg.TypesInfo.InitOrder {
		if fn, ok := ip.ran[init.Rhs]; ok {
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	for _, n := range ip.inits {
		if n[0] == '1' {
			fmt.Fprintf(&b, "\t%s()\n", n[1:])
		}
	}
	b.WriteString("}\n")
	return b.Bytes()
}

// AddTree adds the Go files of dir to the overlay under dstDir.
func AddTree(overlay map[string]string, dir, dstDir string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			overlay[filepath.Join(dstDir, e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	return nil
}

// WriteOverlay writes the overlay file.
func WriteOverlay(path string, overlay map[string]string) error {
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// Reexport generates a package that has the API of path: types as aliases,
// constants as constants, functions and variables as variables, except for the
// given names, which the shim defines itself.
func Reexport(pkgName, path string, except map[string]bool, tp *types.Package) []byte {
	var b bytes.Buffer
	local := "zz" + tp.Name()
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\n", pkgName, local, path)
	sc := tp.Scope()
	for _, n := range sc.Names() {
		obj := sc.Lookup(n)
		if !obj.Exported() || except[n] {
			continue
		}
		switch obj := obj.(type) {
		case *types.TypeName:
			if nt, ok := obj.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", n, local, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", n, local, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, local, n)
		case *types.Func:
			if obj.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", n, local, n)
		}
	}
	return b.Bytes()
}
