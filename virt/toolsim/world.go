package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/frk/gosql/zzsim/rt"
)

var rxPackage = regexp.MustCompile(`(?m)^package (\w+)$`)

func packageName(src string) string {
	if m := rxPackage.FindStringSubmatch(src); m != nil {
		return m[1]
	}
	return ""
}

// profile says what kind of worlds a check wants.
type profile struct {
	bad     int // per mille: a target that is rejected, or suspicious, among the files
	fx      int // per mille: files of group fx
	onePkg  bool
	plain   bool // no filters, default places
	maxPkgs int
	dsnB    bool
	mutate  int // per mille: a changed tag
}

// wfile is a source file of a world.
type wfile struct {
	pf  *poolFile
	dir string // relative to the project
}

func (f *wfile) path() string { return filepath.Join(f.dir, f.pf.Name) }

// opts are the settings of a run, however they are given.
type opts struct {
	recursive bool
	files     []string // relative to the working directory
	rx        []string
	o         string
	qid       bool
	ctx       bool
	fcktag    *string
	fckbase   bool
	fcksep    *string
	method    string
	argtype   string
	fvc       string // type with a filter value converter
	dsn       string
}

// world is a project, how the tool is called in it, and what should come out.
type world struct {
	files []*wfile
	wd    string // working directory, relative to the project
	opts  opts
	args  []string
	cwd   string
	conf  string // the configuration file in use, relative to the project ("" if none)
	tree  tree   // everything but outputs
	out   map[string]*wfile
	outs  []string // output paths, sorted
	desc  string
}

// outName is the documented name of an output file.
func outName(format, src string) string {
	if format == "" {
		format = "%s_gosql.go"
	}
	name := strings.TrimSuffix(src, ".go")
	if strings.Contains(format, "%s") {
		name = strings.Replace(format, "%s", name, 1)
	} else {
		name += format
	}
	if !strings.HasSuffix(name, ".go") {
		name += ".go"
	}
	return name
}

var (
	testdataGroups = []string{"sel", "ins", "upd", "del", "fil", "pgs"}
	qgenGroups     = []string{"p1", "p2", "p3", "p4"}
	formats        = []string{"", "gen_%s.go", "_x.go", "%s.gen", "zz_%s.go", "%s_db.go", "a0_%s.go"}
	dirNames       = []string{"a", "b", "c/d", "model", "z"}
)

// dbSource is a type to be the methods' argument.
const dbSource = `package qrt

import (
	"context"
	"database/sql"
)

type DB struct{ *sql.DB }

func (d *DB) Exec(q string, args ...interface{}) (sql.Result, error) { return d.DB.Exec(q, args...) }
func (d *DB) ExecContext(c context.Context, q string, args ...interface{}) (sql.Result, error) {
	return d.DB.ExecContext(c, q, args...)
}
func (d *DB) Query(q string, args ...interface{}) (*sql.Rows, error) { return d.DB.Query(q, args...) }
func (d *DB) QueryContext(c context.Context, q string, args ...interface{}) (*sql.Rows, error) {
	return d.DB.QueryContext(c, q, args...)
}
func (d *DB) QueryRow(q string, args ...interface{}) *sql.Row { return d.DB.QueryRow(q, args...) }
func (d *DB) QueryRowContext(c context.Context, q string, args ...interface{}) *sql.Row {
	return d.DB.QueryRowContext(c, q, args...)
}
`

// closure adds a file and what it refers to; false when names would clash.
func closure(have []*poolFile, pf *poolFile) ([]*poolFile, bool) {
	group := pl.Pool.Groups[pf.group]
	var add []*poolFile
	seen := map[*poolFile]bool{}
	for _, h := range have {
		seen[h] = true
	}
	var visit func(f *poolFile)
	visit = func(f *poolFile) {
		if seen[f] {
			return
		}
		seen[f] = true
		add = append(add, f)
		for _, j := range f.Deps {
			visit(group[j])
		}
	}
	visit(pf)
	names := map[string]bool{}
	decls := map[string]bool{}
	for _, h := range have {
		names[h.Name] = true
		for _, d := range h.Decls {
			decls[d] = true
		}
	}
	for _, f := range add {
		if names[f.Name] {
			return have, false
		}
		names[f.Name] = true
		for _, d := range f.Decls {
			if decls[d] {
				return have, false
			}
			decls[d] = true
		}
	}
	return append(have, add...), true
}

func drawPackage(p profile, n int) []*poolFile {
	var have []*poolFile
	qgen := rt.Chance(350)
	g := ""
	if qgen {
		g = rt.Pick(qgenGroups)
	} else {
		g = rt.Pick(testdataGroups)
	}
	for i := 0; i < n; i++ {
		gg := g
		switch {
		case !qgen && p.bad > 0 && rt.Chance(p.bad):
			gg = "bad"
		case !qgen && p.fx > 0 && rt.Chance(p.fx):
			gg = "fx"
		case !qgen && rt.Chance(150):
			gg = rt.Pick(testdataGroups)
		}
		fs := pl.Pool.Groups[gg]
		for try := 0; try < 3; try++ {
			f := fs[rt.Draw(len(fs))]
			var ok bool
			if have, ok = closure(have, f); ok {
				break
			}
		}
	}
	if len(have) == 0 {
		have, _ = closure(nil, pl.Pool.Groups[g][0])
	}
	return have
}

func drawWorld(p profile) *world {
	w := &world{tree: tree{".git/": "", "go.mod": "module " + pl.Module + "\n\ngo 1.23\n"}, out: map[string]*wfile{}}
	if p.maxPkgs == 0 {
		p.maxPkgs = 3
	}
	// sources
	npk := 1
	if !p.onePkg {
		npk += rt.Draw(p.maxPkgs)
	}
	var dirs []string
	perm := rt.Perm(len(dirNames))
	fixed := map[string]bool{}
	for i := 0; i < npk; i++ {
		d := dirNames[perm[i]]
		dirs = append(dirs, d)
		fs := drawPackage(p, rt.Range(1, 4))
		for _, pf := range fs {
			f := &wfile{pf, d}
			w.files = append(w.files, f)
			w.tree[f.path()] = pf.Src
			for _, x := range pf.Fixed {
				fixed[x] = true
			}
		}
		w.drawExtras(d, fs[0].Pkg)
	}
	for again := true; again; {
		again = false
		for d := range fixed {
			for n, src := range pl.Pool.Fixed[d] {
				if _, ok := w.tree[filepath.Join(d, n)]; ok {
					continue
				}
				w.tree[filepath.Join(d, n)] = src
				for x := range pl.Pool.Fixed {
					if !fixed[x] && strings.Contains(src, `"`+pl.Module+"/"+x+`"`) {
						fixed[x] = true
						again = true
					}
				}
			}
		}
	}
	sort.Slice(w.files, func(i, j int) bool { return w.files[i].path() < w.files[j].path() })
	if p.mutate > 0 && rt.Chance(p.mutate) {
		w.mutate()
	}

	// settings
	o := &w.opts
	o.dsn = dsnA
	if p.dsnB && rt.Chance(100) {
		o.dsn = dsnB
	}
	o.recursive = npk > 1 || rt.Chance(300)
	w.wd = dirs[0]
	if o.recursive && rt.Chance(850) {
		w.wd = "."
	}
	if !p.plain {
		switch rt.Weighted(6, 3, 2) {
		case 1: // some of the files
			for _, f := range w.files {
				if !rt.Chance(450) {
					continue
				}
				rel, err := filepath.Rel(filepath.Join(projDir, w.wd), filepath.Join(projDir, f.path()))
				if err != nil || strings.HasPrefix(rel, "..") {
					continue
				}
				switch rt.Draw(3) {
				case 1:
					rel = "./" + rel
				case 2:
					rel = filepath.Join(projDir, f.path())
				}
				o.files = append(o.files, rel)
			}
			if len(o.files) == 0 {
				break
			}
		case 2:
			f := w.files[rt.Draw(len(w.files))]
			o.rx = append(o.rx, rt.Pick([]string{`/` + regexp.QuoteMeta(f.path()) + `$`, `/(sel|s|del)[^/]*\.go$`, `/` + regexp.QuoteMeta(dirs[0]) + `/[^/]+$`, `\.go$`, `_\d+\.go`}))
			if rt.Chance(300) {
				o.rx = append(o.rx, `/proj/`+regexp.QuoteMeta(dirs[len(dirs)-1])+`/`)
			}
		}
	}
	if rt.Chance(400) {
		o.o = formats[rt.Draw(len(formats))]
	}
	o.qid = rt.Chance(250)
	o.ctx = rt.Chance(250)
	if rt.Chance(150) {
		s := rt.Pick([]string{"", "sql", "db_key", "json"})
		o.fcktag = &s
	}
	o.fckbase = rt.Chance(100)
	if rt.Chance(150) {
		s := rt.Pick([]string{"", "_", "/", "."})
		o.fcksep = &s
	}
	if rt.Chance(150) {
		o.method = rt.Pick([]string{"Run", "ExecQuery", "Exec"})
	}
	if rt.Chance(200) {
		o.argtype = rt.Pick([]string{pl.Module + "/qrt.DBTX", "*" + pl.Module + "/qrt.DB", "github.com/frk/gosql.Conn"})
		if strings.HasPrefix(strings.TrimPrefix(o.argtype, "*"), pl.Module) && w.tree["qrt/qrt.go"] == "" {
			for n, src := range pl.Pool.Fixed["qrt"] {
				w.tree[filepath.Join("qrt", n)] = src
			}
		}
		w.tree["qrt/db.go"] = dbSource
	}
	if rt.Chance(100) {
		w.setConverter()
	}
	w.finish(rt.Draw(4), rt.Bool())
	return w
}

var (
	rxTagged = regexp.MustCompile("`(sql|rel):\"([^\"`]*)\"")
	rxWord   = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
	rxQual   = regexp.MustCompile(`[a-z_0-9]+\.`)
)

// mutate changes a tag or two of the sources: whatever the program makes of it.
func (w *world) mutate() {
	f := w.files[rt.Draw(len(w.files))]
	for n := 1 + rt.Draw(2); n > 0; n-- {
		src := w.tree[f.path()]
		locs := rxTagged.FindAllStringSubmatchIndex(src, -1)
		if len(locs) == 0 {
			return
		}
		at := func() (int, int, string) {
			l := locs[rt.Draw(len(locs))]
			return l[4], l[5], src[l[4]:l[5]]
		}
		a, e, tag := at()
		_, _, other := at()
		switch rt.Draw(6) {
		case 0: // without a qualifier
			if l := rxQual.FindStringIndex(tag); l != nil {
				tag = tag[:l[0]] + tag[l[1]:]
			}
		case 1: // another word
			x, y := rxWord.FindAllStringIndex(tag, -1), rxWord.FindAllString(other, -1)
			if len(x) > 0 && len(y) > 0 {
				l := x[rt.Draw(len(x))]
				tag = tag[:l[0]] + y[rt.Draw(len(y))] + tag[l[1]:]
			}
		case 2: // another tag
			tag = other
		case 3: // one character less
			if len(tag) > 0 {
				i := rt.Draw(len(tag))
				tag = tag[:i] + tag[i+1:]
			}
		case 4: // one more
			i := rt.Draw(len(tag) + 1)
			tag = tag[:i] + rt.Pick([]string{",", ".", ":", ";", ">", "=", "<", "-", "@", " ", "*", "~", "(", "1", "x"}) + tag[i:]
		case 5: // both
			tag += rt.Pick([]string{",", " ", ""}) + other
		}
		w.tree[f.path()] = src[:a] + tag + src[e:]
	}
	rt.Hit("tags.mutated")
}

func (w *world) setConverter() {
	if w.tree["common/common.go"] != "" {
		w.opts.fvc = rt.Pick([]string{"time.Time", pl.Module + "/common.MyTime"})
	}
}

// drawExtras adds files that have no part in the outputs.
func (w *world) drawExtras(dir, pkg string) {
	if rt.Chance(250) {
		w.tree[filepath.Join(dir, "doc.go")] = "// Package " + pkg + " is documented.\npackage " + pkg + "\n\ntype noTarget struct{ Select string }\n"
	}
	if rt.Chance(200) {
		w.tree[filepath.Join(dir, "ignored.go")] = "package " + pkg + "\n\n// gosql:ignore\ntype SelectIgnored struct{ X int }\n"
	}
	if rt.Chance(150) {
		w.tree[filepath.Join(dir, "more_test.go")] = "package " + pkg + "\n\ntype SelectInTest struct{ X int }\n"
	}
	if rt.Chance(150) {
		w.tree[filepath.Join(dir, "tagged.go")] = "//go:build never\n\npackage " + pkg + "\n\ntype SelectTagged struct{ X int }\n"
	}
	if rt.Chance(100) {
		w.tree[filepath.Join(dir, "testdata", "t.go")] = "package t\n\ntype SelectInTestdata struct{ X int }\n"
	}
	if rt.Chance(100) {
		w.tree[filepath.Join(dir, "_old.go")] = "package " + pkg + "\n\ntype SelectOld struct{ X int }\n"
	}
	if rt.Chance(100) {
		w.tree[filepath.Join(dir, "README.md")] = "SelectNothing\n"
	}
}

// selected tells whether the settings name the file.
func (w *world) selected(path string) bool {
	abs := filepath.Join(projDir, path)
	dir := filepath.Dir(abs)
	wd := filepath.Join(projDir, w.wd)
	if dir != wd && !(w.opts.recursive && strings.HasPrefix(dir, wd+"/") || w.opts.recursive && wd == projDir) {
		return false
	}
	if len(w.opts.files) == 0 && len(w.opts.rx) == 0 {
		return true
	}
	for _, f := range w.opts.files {
		if !filepath.IsAbs(f) {
			f = filepath.Join(wd, f)
		}
		if filepath.Clean(f) == abs {
			return true
		}
	}
	for _, x := range w.opts.rx {
		if regexp.MustCompile(x).MatchString(abs) {
			return true
		}
	}
	return false
}

// finish derives the outputs, the command line and the configuration file.
// form: 0 flags, 1 configuration file in the project's root, 2 both, 3 -config
func (w *world) finish(form int, alt bool) {
	o := &w.opts
	w.out, w.outs = map[string]*wfile{}, nil
	for _, f := range w.files {
		if len(f.pf.Targets) == 0 || !w.selected(f.path()) {
			continue
		}
		p := filepath.Join(f.dir, outName(o.o, f.pf.Name))
		w.out[p] = f
		w.outs = append(w.outs, p)
	}
	sort.Strings(w.outs)
	w.args = nil
	conf := map[string]interface{}{}
	flag := func(i int) bool { // this setting as a flag?
		switch form {
		case 0:
			return true
		case 1:
			return false
		}
		return rt.Bool()
	}
	arg := func(name, val string) {
		if alt {
			w.args = append(w.args, "-"+name+"="+val)
		} else {
			w.args = append(w.args, "-"+name, val)
		}
	}
	str := func(i int, name, key, val string) {
		if flag(i) {
			arg(name, val)
			if form == 2 && rt.Chance(200) { // the flag wins
				conf[key] = map[string]string{"o": "%s_unused.go", "fcktag": "unused", "fcksep": "+"}[name]
				if conf[key] == "" || conf[key] == nil {
					delete(conf, key)
				}
			}
		} else {
			conf[key] = val
		}
	}
	boolean := func(i int, name, key string) {
		if flag(i) {
			w.args = append(w.args, "-"+name)
		} else {
			conf[key] = true
		}
	}
	str(0, "db", "database_dsn", o.dsn)
	if o.recursive {
		boolean(1, "r", "recursive")
	}
	if len(o.files) > 0 {
		if flag(2) {
			for _, f := range o.files {
				arg("f", f)
			}
		} else {
			conf["input_files"] = o.files
		}
	}
	if len(o.rx) > 0 {
		if flag(3) {
			for _, f := range o.rx {
				arg("rx", f)
			}
		} else {
			conf["input_file_regexps"] = o.rx
		}
	}
	if o.o != "" {
		str(4, "o", "output_file_name_format", o.o)
	}
	if o.qid {
		boolean(5, "qid", "quote_identifiers")
	}
	if o.ctx {
		boolean(6, "with-ctx", "method_with_context")
	}
	if o.fcktag != nil {
		str(7, "fcktag", "filter_column_key_tag", *o.fcktag)
	}
	if o.fckbase {
		boolean(8, "fckbase", "filter_column_key_base")
	}
	if o.fcksep != nil {
		str(9, "fcksep", "filter_column_key_separator", *o.fcksep)
	}
	if o.argtype != "" {
		str(10, "argtype", "method_argument_type", o.argtype)
	}
	if o.method != "" {
		conf["method_name"] = o.method
	}
	if o.fvc != "" {
		conf["filter_value_converters"] = []map[string]string{{"type": o.fvc, "func": pl.Module + "/common.ConvTime"}}
	}
	w.conf = ""
	// where it runs
	w.cwd = filepath.Join(projDir, w.wd)
	other := rt.Draw(4)
	if form == 1 && other == 0 && rt.Bool() {
		// from the root, the file names the directory; a configuration file
		// found from a deeper directory is the same
		conf["working_directory"] = filepath.Join(projDir, w.wd)
		w.cwd = projDir
	} else {
		switch other {
		case 1:
			w.cwd = projDir
			arg("wd", "./"+w.wd)
		case 2:
			w.cwd = root
			arg("wd", filepath.Join(projDir, w.wd))
		case 3:
			w.cwd = filepath.Join(projDir, w.files[0].dir)
			rel, _ := filepath.Rel(w.cwd, filepath.Join(projDir, w.wd))
			arg("wd", rel)
		}
	}
	if len(conf) > 0 {
		b, err := json.MarshalIndent(conf, "", "\t")
		if err != nil {
			panic(rt.Abort{Reason: err.Error()})
		}
		switch {
		case form == 3:
			w.conf = "conf/my.json"
			rel, _ := filepath.Rel(w.cwd, filepath.Join(projDir, w.conf))
			arg("config", rel)
		case alt:
			w.conf = ".gosql.json"
		default:
			w.conf = ".gosql"
		}
		w.tree[w.conf] = string(b) + "\n"
	}
	w.describe()
}

func (w *world) describe() {
	var b strings.Builder
	for _, f := range w.files {
		b.WriteString(f.path() + " ")
	}
	w.desc = fmt.Sprintf("%s| gosql %s (in %s)", b.String(), strings.ReplaceAll(strings.Join(w.args, " "), root, "$ROOT"), short(w.cwd))
	if w.conf != "" {
		w.desc += " | " + w.conf + ": " + strings.ReplaceAll(strings.Join(strings.Fields(w.tree[w.conf]), ""), root, "$ROOT")
	}
	rt.ObserveString(w.desc)
	rt.Logf("world: %s", w.desc)
	if sample == "" {
		sample = w.desc
		if len(sample) > 500 {
			sample = sample[:500]
		}
	}
}

// leftovers draws what earlier runs left at the output paths. Unless any is
// set, a file with a damaged package clause is not the first of its package.
func (w *world) leftovers(clean tree, any bool) tree {
	t := tree{}
	defer func() {
		for p, c := range t {
			if f := w.out[p]; f != nil && !any && p < f.path() && packageName(strings.TrimSuffix(c, "\n")+"\n") != f.pf.Pkg {
				delete(t, p)
			}
		}
	}()
	for _, p := range w.outs {
		full := clean[p]
		switch rt.Weighted(5, 2, 2, 2, 1, 1, 1) {
		case 0:
		case 1: // stale
			t[p] = stale(full)
			rt.Hit("left.stale")
		case 2:
			t[p] = full
			rt.Hit("left.current")
		case 3:
			t[p] = full[:cut(full)]
			rt.Hit("left.truncated")
		case 4:
			t[p] = ""
			rt.Hit("left.empty")
		case 5:
			t[p] = string(make([]byte, len(full)))
			rt.Hit("left.zeros")
		case 6:
			t[p] = full + "\nfunc (" // a longer file
			rt.Hit("left.longer")
		}
	}
	// an output whose source is gone
	if len(w.outs) > 0 && rt.Chance(150) {
		d := filepath.Dir(w.outs[0])
		p := filepath.Join(d, outName(w.opts.o, "gone.go"))
		t[p] = "// DO NOT EDIT.\npackage " + w.out[w.outs[0]].pf.Pkg + "\n\nfunc (q *SelectGone) Exec() {}\n"
		rt.Hit("left.orphan")
	}
	return t
}

// cut draws where a file breaks off, often near its beginning.
func cut(s string) int {
	if len(s) == 0 {
		return 0
	}
	if rt.Chance(300) {
		if i := strings.Index(s, "package "); i >= 0 {
			return i + rt.Draw(24)%(len(s)-i)
		}
	}
	return rt.Draw(len(s))
}

// stale is an older version of an output.
func stale(s string) string {
	i := strings.LastIndex(s, "\nfunc ")
	switch {
	case i < 0:
		return s + "\n"
	case rt.Bool():
		return s[:i] + "\n"
	}
	return strings.ReplaceAll(s, "return ", "return  ") + "\nvar staleOutput = 1\n"
}

func (t tree) with(u tree) tree {
	c := t.clone()
	for k, v := range u {
		c[k] = v
	}
	return c
}

// complete checks the outputs of a successful run against the sources alone:
// every selected file with targets has its output, every target its method.
func (w *world) complete(got tree) string {
	for _, p := range w.outs {
		f := w.out[p]
		src, ok := got[p]
		if !ok {
			return "the output " + p + " of " + f.path() + " is missing"
		}
		if packageName(src) != f.pf.Pkg {
			return fmt.Sprintf("the output %s of %s is of package %q, not %q", p, f.path(), packageName(src), f.pf.Pkg)
		}
		for _, t := range f.pf.Targets {
			if !regexp.MustCompile(`(?m)^func \(\w+ \*?` + t + `\) `).MatchString(src) {
				return "the output " + p + " has no method for " + t
			}
		}
	}
	return ""
}

// isDir tells whether a path is a directory with files of the project.
func (w *world) isDir(path string) bool {
	if path == projDir {
		return true
	}
	for p := range w.tree {
		if strings.HasPrefix(filepath.Join(projDir, p), path+"/") {
			return true
		}
	}
	return false
}
