// Package simpkgs stands in for golang.org/x/tools/go/packages. Load follows
// what the real loader does for the packages of the project under simulation
// - list directories, read the files, parse, type check tolerantly - but in
// process, through the simulated file system, with dependencies from export
// data. vsim compares the outcome with the real tool before every check.
package simpkgs

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"

	"github.com/frk/gosql/zzsim/simos"
)

var (
	// ModPath is the import path of the project, Root its directory.
	ModPath string
	Root    string
	// Exports maps import paths to files of export data.
	Exports map[string]string
	// Sources maps the directories of further packages that are loaded from source.
	Sources map[string]string
	// Loads counts calls.
	Loads int
	// FailLoad makes the next Load fail as a whole.
	FailLoad func() error
)

var (
	depFset = token.NewFileSet()
	depImp  types.Importer
)

func deps() types.Importer {
	if depImp == nil {
		depImp = importer.ForCompiler(depFset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := Exports[path]
			if !ok {
				return nil, fmt.Errorf("no required module provides package %s", path)
			}
			return os.Open(f)
		})
	}
	return depImp
}

// Warm loads the export data of every dependency once.
func Warm(paths []string) error {
	for _, p := range paths {
		if _, err := deps().Import(p); err != nil {
			return err
		}
	}
	return nil
}

type loader struct {
	cfg  *packages.Config
	fset *token.FileSet
	done map[string]*packages.Package // by import path
	busy map[string]bool
}

func Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	Loads++
	if FailLoad != nil {
		if err := FailLoad(); err != nil {
			return nil, err
		}
	}
	if cfg == nil {
		cfg = &packages.Config{}
	}
	l := &loader{cfg: cfg, fset: cfg.Fset, done: map[string]*packages.Package{}, busy: map[string]bool{}}
	if l.fset == nil {
		l.fset = token.NewFileSet()
	}
	dir := cfg.Dir
	if dir == "" {
		dir = simos.Cwd()
	}
	if r, err := filepath.Rel(Root, dir); err != nil || r == ".." || strings.HasPrefix(r, "../") {
		return nil, fmt.Errorf("err: exit status 1: stderr: go: go.mod file not found in current directory or any parent directory")
	}
	if len(patterns) == 0 {
		patterns = []string{"."}
	}
	var out []*packages.Package
	for _, pat := range patterns {
		ps, err := l.pattern(dir, pat)
		if err != nil {
			return nil, err
		}
		out = append(out, ps...)
	}
	for _, p := range l.done {
		l.gate(p)
	}
	return out, nil
}

func (l *loader) gate(p *packages.Package) {
	m := l.cfg.Mode
	p.Fset = l.fset
	if m&packages.NeedName == 0 {
		p.Name, p.PkgPath = "", ""
	}
	if m&packages.NeedFiles == 0 {
		p.GoFiles, p.IgnoredFiles = nil, nil
	}
	if m&packages.NeedCompiledGoFiles == 0 {
		p.CompiledGoFiles = nil
	}
	if m&packages.NeedSyntax == 0 {
		p.Syntax = nil
	}
	if m&packages.NeedTypesInfo == 0 {
		p.TypesInfo = nil
	}
	if m&packages.NeedTypes == 0 {
		p.Types = nil
		p.Fset = nil
	}
	if m&packages.NeedImports == 0 {
		p.Imports = nil
	}
	if m&packages.NeedModule == 0 {
		p.Module = nil
	}
}

func bogus(pat string, err error) *packages.Package {
	return &packages.Package{ID: pat, Errors: []packages.Error{{Msg: fmt.Sprintf("pattern %s: %v", pat, err), Kind: packages.ListError}}, IllTyped: true}
}

func (l *loader) pattern(dir, pat string) ([]*packages.Package, error) {
	switch {
	case pat == "./...", strings.HasSuffix(pat, "/..."):
		base := filepath.Join(dir, strings.TrimSuffix(pat, "..."))
		var dirs []string
		if err := walk(base, &dirs); err != nil {
			return []*packages.Package{bogus(pat, err)}, nil
		}
		var out []*packages.Package
		for _, d := range dirs {
			p, err := l.dir(d)
			if err != nil {
				return []*packages.Package{bogus(pat, err)}, nil
			}
			if p != nil {
				out = append(out, p)
			}
		}
		return out, nil
	case pat == ".", strings.HasPrefix(pat, "./"), filepath.IsAbs(pat):
		d := pat
		if !filepath.IsAbs(d) {
			d = filepath.Join(dir, pat)
		}
		p, err := l.dir(d)
		if err != nil {
			return nil, fmt.Errorf("err: exit status 1: stderr: go: %v", err)
		}
		if p == nil {
			return []*packages.Package{{ID: d, PkgPath: d, Errors: []packages.Error{{Msg: "no Go files in " + d, Kind: packages.ListError}}, IllTyped: true}}, nil
		}
		return []*packages.Package{p}, nil
	}
	if strings.HasPrefix(pat, ModPath+"/") {
		p, err := l.dir(filepath.Join(Root, strings.TrimPrefix(pat, ModPath+"/")))
		if err != nil || p == nil {
			return []*packages.Package{bogus(pat, fmt.Errorf("%v", err))}, nil
		}
		return []*packages.Package{p}, nil
	}
	if d, ok := Sources[pat]; ok {
		p, err := l.dirAs(d, pat)
		if err != nil {
			return []*packages.Package{bogus(pat, err)}, nil
		}
		return []*packages.Package{p}, nil
	}
	return []*packages.Package{{ID: pat, PkgPath: pat, Errors: []packages.Error{{Msg: "no required module provides package " + pat, Kind: packages.ListError}}, IllTyped: true}}, nil
}

func walk(dir string, out *[]string) error {
	ents, err := simos.ReadDir(dir)
	if err != nil {
		return err
	}
	*out = append(*out, dir)
	for _, e := range ents {
		n := e.Name()
		if !e.IsDir() || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" {
			continue
		}
		d := filepath.Join(dir, n)
		if _, err := os.Stat(filepath.Join(d, "go.mod")); err == nil {
			continue
		}
		if err := walk(d, out); err != nil {
			return err
		}
	}
	return nil
}

func (l *loader) dir(d string) (*packages.Package, error) {
	rel, err := filepath.Rel(Root, d)
	if err != nil || strings.HasPrefix(rel, "..") {
		return l.dirAs(d, d)
	}
	path := ModPath
	if rel != "." {
		path += "/" + filepath.ToSlash(rel)
	}
	return l.dirAs(d, path)
}

func (l *loader) dirAs(d, path string) (*packages.Package, error) {
	if p, ok := l.done[path]; ok {
		return p, nil
	}
	ents, err := simos.ReadDir(d)
	if err != nil {
		return nil, err
	}
	p := &packages.Package{ID: path, PkgPath: path, Fset: l.fset, Imports: map[string]*packages.Package{}}
	// list: which files belong to the package
	var listErrs []packages.Error
	ctx := build.Default
	ctx.OpenFile = func(name string) (io.ReadCloser, error) {
		b, err := simos.ReadFile(name)
		if err != nil {
			return nil, err
		}
		return io.NopCloser(bytes.NewReader(b)), nil
	}
	names := map[string]string{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			continue
		}
		full := filepath.Join(d, n)
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		ok, err := ctx.MatchFile(d, n)
		if err != nil {
			if _, isPath := err.(*os.PathError); isPath || strings.Contains(err.Error(), "open ") || strings.Contains(err.Error(), "read ") {
				listErrs = append(listErrs, packages.Error{Msg: err.Error(), Kind: packages.ListError})
				continue
			}
			ok = true // a syntax error
		}
		if !ok {
			p.IgnoredFiles = append(p.IgnoredFiles, full)
			continue
		}
		p.GoFiles = append(p.GoFiles, full)
	}
	if len(p.GoFiles) == 0 && len(listErrs) == 0 && len(p.IgnoredFiles) == 0 {
		return nil, nil
	}
	p.CompiledGoFiles = append([]string(nil), p.GoFiles...)
	l.busy[path] = true
	// parse
	var parseErrs []packages.Error
	for _, f := range p.GoFiles {
		b, err := simos.ReadFile(f)
		if err != nil {
			msg := err.Error()
			if pe, ok := err.(*os.PathError); ok {
				msg = pe.Err.Error()
			}
			parseErrs = append(parseErrs, packages.Error{Pos: f + ":1", Msg: msg, Kind: packages.ParseError})
			continue
		}
		af, err := parser.ParseFile(l.fset, f, b, parser.AllErrors|parser.ParseComments)
		if err != nil {
			first := true
			if el, ok := err.(scanner.ErrorList); ok {
				for _, e := range el {
					if first {
						listErrs = append(listErrs, packages.Error{Pos: fmt.Sprintf("%s:%d:%d", filepath.Base(f), e.Pos.Line, e.Pos.Column), Msg: e.Msg, Kind: packages.ListError})
						first = false
					}
					parseErrs = append(parseErrs, packages.Error{Pos: e.Pos.String(), Msg: e.Msg, Kind: packages.ParseError})
				}
			}
		}
		if af != nil {
			p.Syntax = append(p.Syntax, af)
			names[f] = af.Name.Name
			if p.Name == "" {
				p.Name = af.Name.Name
			} else if af.Name.Name != "" && af.Name.Name != p.Name {
				listErrs = append(listErrs, packages.Error{Msg: fmt.Sprintf("found packages %s and %s (%s) in %s", p.Name, af.Name.Name, filepath.Base(f), d), Kind: packages.ListError})
			}
		}
	}
	p.Errors = append(listErrs, parseErrs...)
	// type check
	p.Types = types.NewPackage(path, p.Name)
	p.TypesSizes = types.SizesFor("gc", "amd64")
	p.TypesInfo = &types.Info{
		Types: make(map[ast.Expr]types.TypeAndValue), Defs: make(map[*ast.Ident]types.Object), Uses: make(map[*ast.Ident]types.Object),
		Implicits: make(map[ast.Node]types.Object), Instances: make(map[*ast.Ident]types.Instance), Scopes: make(map[ast.Node]*types.Scope),
		Selections: make(map[*ast.SelectorExpr]*types.Selection), FileVersions: make(map[*ast.File]string),
	}
	p.Module = &packages.Module{Path: ModPath, Main: true, Dir: Root, GoVersion: "1.23"}
	conf := types.Config{Importer: impFunc(l.imp), Sizes: p.TypesSizes, GoVersion: "go1.23", Error: func(err error) {
		e := packages.Error{Msg: err.Error(), Kind: packages.TypeError}
		if te, ok := err.(types.Error); ok {
			e.Pos, e.Msg = te.Fset.Position(te.Pos).String(), te.Msg
		}
		p.Errors = append(p.Errors, e)
	}}
	c := types.NewChecker(&conf, l.fset, p.Types, p.TypesInfo)
	_ = c.Files(p.Syntax)
	p.IllTyped = len(p.Errors) > 0
	delete(l.busy, path)
	l.done[path] = p
	seen := map[string]bool{}
	for _, f := range p.Syntax {
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, `"`)
			if q := l.done[ip]; q != nil && !seen[ip] {
				seen[ip] = true
				p.Imports[ip] = q
			}
		}
	}
	return p, nil
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

func (l *loader) imp(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if strings.HasPrefix(path, ModPath+"/") {
		if l.busy[path] {
			return nil, fmt.Errorf("import cycle")
		}
		p, err := l.dir(filepath.Join(Root, strings.TrimPrefix(path, ModPath+"/")))
		if err == nil && p == nil {
			err = fmt.Errorf("no Go files in %s", path)
		}
		if err != nil {
			// the go command reports such a package without name, module and files
			l.done[path] = &packages.Package{ID: path, PkgPath: path, Imports: map[string]*packages.Package{}, IllTyped: true,
				Errors: []packages.Error{{Msg: err.Error(), Kind: packages.ListError}}}
			return nil, fmt.Errorf("could not import %s (invalid package name: \"\")", path)
		}
		if p.Types == nil {
			return nil, fmt.Errorf("could not import %s (invalid package name: \"\")", path)
		}
		return p.Types, nil
	}
	return deps().Import(path)
}

// SortedExports lists the packages with export data.
func SortedExports() []string {
	var out []string
	for p := range Exports {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}
