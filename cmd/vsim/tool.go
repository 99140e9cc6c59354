package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"

	"vsim/instr"
)

// The project under simulation is a module below the tool's own import path,
// so that it can be checked by the real tool too.
const toolModule = "github.com/frk/gosql/zzproj"

// poolFile is a source file that worlds are made of.
type poolFile struct {
	Name    string   `json:"name"`
	Src     string   `json:"src"`
	Targets []string `json:"targets,omitempty"`
	Decls   []string `json:"decls"`
	Deps    []int    `json:"deps,omitempty"`  // files of the group it refers to
	Fixed   []string `json:"fixed,omitempty"` // directories it imports
}

type pool struct {
	Fixed  map[string]map[string]string `json:"fixed"` // directory -> file -> source
	Groups map[string][]*poolFile       `json:"groups"`
}

var rxTarget = regexp.MustCompile(`^(?i:Select|Insert|Update|Delete|Filter)`)

func (p *pool) add(group, name string, src []byte) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return fmt.Errorf("%s/%s: %v", group, name, err)
	}
	pf := &poolFile{Name: name, Src: string(src)}
	ignored := func(doc *ast.CommentGroup) bool {
		return doc != nil && strings.Contains(doc.Text()+commentText(doc), "gosql:ignore")
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					pf.Decls = append(pf.Decls, s.Name.Name)
					if rxTarget.MatchString(s.Name.Name) && !ignored(d.Doc) && !ignored(s.Doc) {
						pf.Targets = append(pf.Targets, s.Name.Name)
					}
				case *ast.ValueSpec:
					for _, n := range s.Names {
						if n.Name != "_" {
							pf.Decls = append(pf.Decls, n.Name)
						}
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name != "init" {
				pf.Decls = append(pf.Decls, d.Name.Name)
			}
		}
	}
	for _, im := range f.Imports {
		if ip := strings.Trim(im.Path.Value, `"`); strings.HasPrefix(ip, toolModule+"/") {
			pf.Fixed = append(pf.Fixed, strings.TrimPrefix(ip, toolModule+"/"))
		}
	}
	p.Groups[group] = append(p.Groups[group], pf)
	return nil
}

func commentText(doc *ast.CommentGroup) string {
	s := ""
	for _, c := range doc.List {
		s += c.Text
	}
	return s
}

// link finds which files of a group need which others.
func (p *pool) link(group string) error {
	decl := map[string][]int{}
	for i, f := range p.Groups[group] {
		for _, d := range f.Decls {
			decl[d] = append(decl[d], i)
		}
	}
	for i, pf := range p.Groups[group] {
		f, err := parser.ParseFile(token.NewFileSet(), pf.Name, pf.Src, 0)
		if err != nil {
			return err
		}
		need := map[int]bool{}
		for _, id := range f.Unresolved {
			for _, j := range decl[id.Name] {
				if j != i && !need[j] {
					need[j] = true
					break
				}
			}
		}
		for j := range need {
			pf.Deps = append(pf.Deps, j)
		}
		sort.Ints(pf.Deps)
	}
	return nil
}

// split makes a file of its own of every target type of a source file.
func (p *pool) split(group, name string, src []byte) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(file string, parts []string) error {
		body := strings.Join(parts, "\n\n")
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\nimport (\n", f.Name.Name)
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, `"`)
			n := filepath.Base(ip)
			if im.Name != nil {
				n = im.Name.Name
			}
			if regexp.MustCompile(`\b` + n + `\.`).MatchString(body) {
				if im.Name != nil {
					fmt.Fprintf(&b, "\t%s %q\n", n, ip)
				} else {
					fmt.Fprintf(&b, "\t%q\n", ip)
				}
			}
		}
		fmt.Fprintf(&b, ")\n\n%s\n", body)
		out, err := format.Source(b.Bytes())
		if err != nil {
			return fmt.Errorf("%s: %v", file, err)
		}
		return p.add(group, file, out)
	}
	var shared []string
	for _, d := range f.Decls {
		a, e := d.Pos(), d.End()
		if gd, ok := d.(*ast.GenDecl); ok {
			if gd.Tok == token.IMPORT {
				continue
			}
			if gd.Doc != nil {
				a = gd.Doc.Pos()
			}
			if gd.Tok == token.TYPE && len(gd.Specs) == 1 {
				if n := gd.Specs[0].(*ast.TypeSpec).Name.Name; rxTarget.MatchString(n) {
					if err := emit(strings.ToLower(n)+".go", []string{string(src[off(a):off(e)])}); err != nil {
						return err
					}
					continue
				}
			}
		}
		shared = append(shared, string(src[off(a):off(e)]))
	}
	if len(shared) > 0 {
		return emit(strings.TrimSuffix(name, ".go")+"_shared.go", shared)
	}
	return nil
}

// buildPool reads the fixtures and generates further query types.
func buildPool(seed int64, dir string) (*pool, error) {
	p := &pool{Fixed: map[string]map[string]string{}, Groups: map[string][]*poolFile{}}
	root := filepath.Join(verifDir, "fixtures", "tool")
	dirs, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		files, err := filepath.Glob(filepath.Join(root, d.Name(), "*.go.txt"))
		if err != nil {
			return nil, err
		}
		sort.Strings(files)
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			name := strings.TrimSuffix(filepath.Base(f), ".txt")
			switch d.Name() {
			case "common", "ns1", "ns2", "ns3", "ns4":
				if p.Fixed[d.Name()] == nil {
					p.Fixed[d.Name()] = map[string]string{}
				}
				p.Fixed[d.Name()][name] = string(src)
			case "bad":
				if name == "types.go" || name == "custom_types.go" { // records used from other packages
					if p.Fixed["bad"] == nil {
						p.Fixed["bad"] = map[string]string{}
					}
					p.Fixed["bad"][name] = string(src)
				}
				if err := p.split("bad", name, src); err != nil {
					return nil, err
				}
			default:
				if err := p.add(d.Name(), name, src); err != nil {
					return nil, err
				}
			}
		}
	}
	// query types of the same grammar as for the checks of the generated code
	if _, err := GenQueries(dir, seed, 96); err != nil {
		return nil, err
	}
	fix := func(b []byte) []byte {
		return []byte(strings.ReplaceAll(string(b), "github.com/frk/gosql/zzsim/qgen/", toolModule+"/"))
	}
	qrtSrc, err := os.ReadFile(filepath.Join(verifDir, "virt", "qrt", "qrt.go"))
	if err != nil {
		return nil, err
	}
	p.Fixed["qrt"] = map[string]string{"qrt.go": strings.Replace(string(qrtSrc), "// Filter is a gosql.Filter.", "// gosql:ignore", 1)}
	recs, err := filepath.Glob(filepath.Join(dir, "recs", "*.go"))
	if err != nil {
		return nil, err
	}
	p.Fixed["recs"] = map[string]string{}
	for _, f := range recs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p.Fixed["recs"][filepath.Base(f)] = string(fix(b))
	}
	for _, pk := range qpkgs {
		files, err := filepath.Glob(filepath.Join(dir, pk.name, "*.go"))
		if err != nil {
			return nil, err
		}
		sort.Strings(files)
		for _, f := range files {
			if strings.HasPrefix(filepath.Base(f), "zz_reg") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if filepath.Base(f) == "zz_iters.go" {
				if err := p.add(pk.name, "iters.go", fix(b)); err != nil {
					return nil, err
				}
				continue
			}
			if err := p.add(pk.name, filepath.Base(f), fix(b)); err != nil {
				return nil, err
			}
		}
	}
	for g := range p.Groups {
		if err := p.link(g); err != nil {
			return nil, err
		}
	}
	return p, nil
}

type goPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct {
		Path string
		Main bool
	}
}

func goList(args ...string) ([]*goPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Module"}, args...)...)
	cmd.Dir = repoDir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v %s", err, errb.String())
	}
	var list []*goPkg
	dec := json.NewDecoder(&out)
	for dec.More() {
		var p goPkg
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		list = append(list, &p)
	}
	return list, nil
}

// reexports writes the files by which the shims have the rest of the API of
// the packages they stand in for.
func reexports(dir string, overlay map[string]string) error {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedTypes | packages.NeedExportFile | packages.NeedImports, Dir: repoDir}
	pkgs, err := packages.Load(cfg, "os", "io/ioutil", "database/sql", "golang.org/x/tools/go/packages")
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		var name string
		except := map[string]bool{}
		switch p.PkgPath {
		case "os":
			name = "simos"
			b, err := os.ReadFile(filepath.Join(verifDir, "virt", "simos", "names.txt"))
			if err != nil {
				return err
			}
			for _, n := range strings.Fields(string(b)) {
				except[n] = true
			}
		case "io/ioutil":
			continue
		case "database/sql":
			name = "simsql"
			except["Open"], except["OpenDB"] = true, true
		default:
			name = "simpkgs"
			except["Load"] = true
		}
		f := filepath.Join(dir, "zz_"+name+".go")
		if err := os.WriteFile(f, instr.Reexport(name, p.PkgPath, except, p.Types), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repoDir, "zzsim", name, "zz_reexport.go")] = f
	}
	return nil
}

// prepareTool builds the worker that simulates runs of the tool itself.
func prepareTool(p *part, built map[string]string, key string, seed int64, waitPG func() error) error {
	dir := filepath.Join(scratch, "build-tool")
	if p.Race {
		dir += "-race"
	}
	setup := filepath.Join(scratch, "toolsim.json")
	if built["toolpool"] == "" {
		built["toolpool"] = "done"
		if err := prepareToolPool(seed, setup); err != nil {
			return err
		}
	}
	if built[key] == "" {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		list, err := goList("-deps", "./cmd/gosql")
		if err != nil {
			return err
		}
		var pats []string
		for _, q := range list {
			if q.Module != nil && q.Module.Main {
				pats = append(pats, q.ImportPath)
			}
		}
		shims := map[string]string{"os": instr.Shims["os"], "io/ioutil": instr.Shims["io/ioutil"], "sync": instr.Shims["sync"],
			"golang.org/x/tools/go/packages": instr.Shims["golang.org/x/tools/go/packages"], "database/sql": "github.com/frk/gosql/zzsim/simsql"}
		overlay := map[string]string{}
		st, err := instr.Instrument(instr.Options{Dir: repoDir, Patterns: pats, Out: dir, Shims: shims, Yield: p.Race, Reset: true,
			MainAs: "toolmain", MainDir: filepath.Join(repoDir, "zzsim", "toolmain")}, overlay)
		if err != nil {
			return err
		}
		// what a new process starts with, in the order of initialisation
		var b bytes.Buffer
		reset := map[string]bool{}
		for _, ip := range st.ResetPkgs {
			reset[ip] = true
		}
		b.WriteString("package main\n\nimport (\n")
		var calls []string
		for i, q := range list {
			if !reset[q.ImportPath] {
				continue
			}
			ip := q.ImportPath
			if q.Name == "main" {
				ip = "github.com/frk/gosql/zzsim/toolmain"
			}
			fmt.Fprintf(&b, "\tz%d %q\n", i, ip)
			calls = append(calls, fmt.Sprintf("\tz%d.ZZReset()\n", i))
		}
		fmt.Fprintf(&b, ")\n\n// resetAll gives the program the state of a new process.\nfunc resetAll() {\n%s}\n", strings.Join(calls, ""))
		rf := filepath.Join(dir, "zz_resets.go")
		if err := os.WriteFile(rf, b.Bytes(), 0o644); err != nil {
			return err
		}
		overlay[filepath.Join(repoDir, "zzsim", "toolsim", "zz_resets.go")] = rf
		if err := reexports(dir, overlay); err != nil {
			return err
		}
		if err := addVirt(overlay, "rt", "simsync", "simutil", "simos", "simioutil", "simsql", "simpkgs", "toolsim"); err != nil {
			return err
		}
		ov := filepath.Join(dir, "overlay.json")
		if err := instr.WriteOverlay(ov, overlay); err != nil {
			return err
		}
		bin := filepath.Join(dir, "toolsim")
		if err := goBuild(repoDir, ov, bin, "./zzsim/toolsim", p.Race); err != nil {
			return err
		}
		built[key] = bin
	}
	if err := waitPG(); err != nil {
		return err
	}
	if built["tooldb"] == "" {
		built["tooldb"] = "done"
		if err := prepareToolDB(); err != nil {
			return err
		}
	}
	p.bin = built[key]
	p.params["setup"] = setup
	p.params["scratch"] = scratch
	p.params["dsn"] = fmt.Sprintf("host=%s port=5432 user=postgres sslmode=disable", cluster.Dir)
	return nil
}

func prepareToolDB() error {
	schema, err := os.ReadFile(filepath.Join(verifDir, "fixtures", "tool", "schema.sql"))
	if err != nil {
		return err
	}
	alter, err := os.ReadFile(filepath.Join(verifDir, "fixtures", "tool", "alter.sql"))
	if err != nil {
		return err
	}
	for _, db := range []string{"tool_a", "tool_b"} {
		if err := cluster.Script("postgres", "CREATE DATABASE "+db); err != nil {
			return err
		}
		if err := cluster.Script(db, string(schema), qSchema); err != nil {
			return err
		}
	}
	return cluster.Script("tool_b", string(alter))
}

func prepareToolPool(seed int64, setup string) error {
	var wg sync.WaitGroup
	var exports []*goPkg
	var lerr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		exports, lerr = goList("-export", "-deps", "context", "database/sql", "database/sql/driver", "encoding/json", "encoding/xml", "fmt", "math/big", "net", "net/url",
			"strconv", "strings", "time", "unsafe", "errors", "sort", "bytes", "regexp", ".", "./filter", "./pgsql")
	}()
	pl, err := buildPool(seed, filepath.Join(scratch, "toolgen"))
	wg.Wait()
	if err != nil {
		return err
	}
	if lerr != nil {
		return lerr
	}
	out := struct {
		Module  string            `json:"module"`
		Exports map[string]string `json:"exports"`
		Sources map[string]string `json:"sources"`
		Pool    *pool             `json:"pool"`
	}{toolModule, map[string]string{}, map[string]string{}, pl}
	for _, q := range exports {
		if q.Export != "" {
			out.Exports[q.ImportPath] = q.Export
		}
		if q.Module != nil && q.Module.Main {
			out.Sources[q.ImportPath] = q.Dir
		}
	}
	b, err := json.Marshal(out)
	if err != nil {
		return err
	}
	return os.WriteFile(setup, b, 0o644)
}
