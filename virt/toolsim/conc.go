package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/generator"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/search"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simos"
	"github.com/frk/gosql/zzsim/simutil"
)

var rxTarget = regexp.MustCompile(`^(?i:Select|Insert|Update|Delete|Filter)`)

// parses tells whether a source parses and how many targets are recognisable.
func parses(src string) (ok bool, targets int) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.AllErrors|parser.ParseComments)
	if f != nil {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
				for _, s := range gd.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok && rxTarget.MatchString(ts.Name.Name) {
						targets++
					}
				}
			}
		}
	}
	return err == nil, targets
}

// ---- C19: several goroutines of one process ----

var errMissed = errors.New("not remembered")

type missedStmt struct {
	s    *server
	tx   string
	hist []stmt
	st   stmt
}

var missedStmts []missedStmt

//go:norace
func missed(s *server, tx string, hist []stmt, st stmt) {
	missedStmts = append(missedStmts, missedStmt{s, tx, hist, st})
}

//go:norace
func inTasks() bool { return taskOps != nil }

//go:norace
func setTasks(o []*dbOps) { taskOps = o }

// job is some targets of a file, to be checked against a database, and
// generated, with some settings.
type job struct {
	pkg   *search.Package
	file  *search.File
	ms    []*search.Match
	cfg   config.Config
	write bool
}

func (j *job) name() string {
	s := filepath.Base(filepath.Dir(j.file.Path)) + "/" + filepath.Base(j.file.Path)
	if len(j.ms) < len(j.file.Matches) {
		s += "("
		for _, m := range j.ms {
			s += m.Named.Obj().Name() + " "
		}
		s = strings.TrimSpace(s) + ")"
	}
	return s
}

// result is what a job came to.
type result struct {
	j     *job
	err   error
	infos []*postgres.TargetInfo
	buf   *bytes.Buffer
	werr  error
}

// do does a job; with an open database, or one of its own.
func (j *job) do(db *postgres.DB) (r *result) {
	r = &result{j: j}
	if db == nil {
		var err error
		if db, err = postgres.Open(j.cfg.DatabaseDSN.Value); err != nil {
			r.err = err
			return r
		}
		defer db.Close()
	}
	for _, m := range j.ms {
		an, err := analysis.Run(j.pkg.Fset, m.Named, m.Pos, j.cfg)
		if err != nil {
			r.err = err
			return r
		}
		ti, err := postgres.Check(db, an.Struct, an)
		if err != nil {
			r.err = err
			return r
		}
		r.infos = append(r.infos, ti)
	}
	if j.write {
		r.gen()
	}
	return r
}

func (r *result) gen() {
	r.buf = new(bytes.Buffer)
	r.werr = generator.Write(r.buf, r.j.pkg.Name, r.infos, r.j.cfg)
}

// text describes a result (when no tasks run).
func (r *result) text() string {
	if r.err != nil {
		return "error: " + strings.ReplaceAll(r.err.Error(), root, "$ROOT")
	}
	if r.buf == nil {
		r.gen()
	}
	if r.werr != nil {
		return "write error: " + r.werr.Error()
	}
	if b, err := format.Source(r.buf.Bytes()); err == nil {
		return string(b)
	}
	return r.buf.String()
}

func runC19(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{fx: 60, bad: 60, maxPkgs: 2, dsnB: true, plain: true})
	lay(projDir, w.tree)
	simos.Forget()
	resetAll()
	rt.ShuffleMaps, simos.Shuffle = false, false

	// what there is to check
	cfg := config.DefaultConfig
	cfg.WorkingDirectory.Value = filepath.Join(projDir, w.wd)
	cfg.DatabaseDSN.Value = w.opts.dsn
	cfg.QuoteIdentifiers.Value = w.opts.qid
	cfg.MethodWithContext.Value = w.opts.ctx
	cfg.FilterColumnKeyBase.Value = w.opts.fckbase
	if w.opts.fcktag != nil {
		cfg.FilterColumnKeyTag.Value = *w.opts.fcktag
	}
	var pkgs []*search.Package
	var serr error
	solo := func(f func()) *rt.TaskPanic {
		dbo = &dbOps{}
		return rt.RunSolo(f)
	}
	find := func() *simutil.Violation {
		simos.Begin(root, cfg.WorkingDirectory.Value)
		defer simos.End()
		if p := solo(func() { pkgs, serr = search.Search(cfg.WorkingDirectory.Value, w.opts.recursive, nil) }); p != nil {
			return simutil.Violate("panic", "%s: %v\n%s", w.desc, p.Value, p.Stack)
		}
		return nil
	}
	if v := find(); v != nil {
		return v
	}
	if serr != nil {
		return nil
	}
	var files []*search.File
	fpkg := map[*search.File]*search.Package{}
	for _, p := range pkgs {
		for _, f := range p.Files {
			if len(f.Matches) > 0 {
				files = append(files, f)
				fpkg[f] = p
			}
		}
	}
	if len(files) == 0 {
		return nil
	}
	start := func() { // a new process
		resetAll()
		_ = analysis.AnalyzeFilterValueConverters(cfg)
	}

	// who does what
	n := 2 + rt.Draw(3)
	tasks := make([][]*job, n)
	var all []*job
	for i := range tasks {
		c := cfg
		if rt.Chance(150) {
			c.DatabaseDSN.Value = map[string]string{dsnA: dsnB, dsnB: dsnA}[c.DatabaseDSN.Value]
		}
		if rt.Chance(200) {
			c.QuoteIdentifiers.Value = !c.QuoteIdentifiers.Value
		}
		if rt.Chance(100) {
			c.MethodName.Value = "Run"
		}
		for k := rt.Range(1, 3); k > 0; k-- {
			var j *job
			if i > 0 && rt.Chance(400) {
				o := rt.Pick(all)
				j = &job{pkg: o.pkg, file: o.file, ms: o.ms, cfg: c, write: o.write}
				rt.Hit("job.same")
			} else {
				f := rt.Pick(files)
				j = &job{pkg: fpkg[f], file: f, ms: f.Matches, cfg: c, write: rt.Bool()}
				if len(j.ms) > 1 && rt.Chance(300) {
					j.ms = []*search.Match{rt.Pick(j.ms)}
				}
			}
			tasks[i] = append(tasks[i], j)
			all = append(all, j)
		}
	}

	// each job alone
	start()
	want := map[*job]string{}
	for _, j := range all {
		var r *result
		if p := solo(func() { r = j.do(nil) }); p != nil {
			return simutil.Violate("panic", "%s: %s alone: %v\n%s", w.desc, j.name(), p.Value, p.Stack)
		}
		want[j] = r.text()
		if r.err != nil {
			rt.Hit("job.rejected")
		} else {
			rt.Hit("job.accepted")
		}
	}

	// all at once, in a new process, that may have done something before
	start()
	warm := ""
	if rt.Chance(300) {
		j := rt.Pick(all)
		if p := solo(func() { j.do(nil) }); p != nil {
			return simutil.Violate("panic", "%s: %s alone: %v\n%s", w.desc, j.name(), p.Value, p.Stack)
		}
		warm = " after " + j.name()
		rt.Hit("caches.warm")
	}
	var shared *postgres.DB
	if rt.Chance(250) {
		if p := solo(func() { shared, _ = postgres.Open(cfg.DatabaseDSN.Value) }); p == nil && shared != nil {
			rt.Hit("db.shared")
			warm += " with a shared connection pool"
			// tasks that wait for a connection would wait outside of the simulation
			if shared.Stats().MaxOpenConnections > 0 {
				shared.Close()
				shared = nil
			}
		}
	}
	state := make([]*dbOps, n)
	faulty := make([]bool, n)
	for i := range state {
		state[i] = &dbOps{}
		if shared == nil && rt.Chance(150) {
			faulty[i] = true
			state[i].fault = &dbFault{at: rt.Draw(24), frac: rt.Draw(1000), col: rt.Draw(8),
				kind: rt.Pick([]string{"error", "io", "row", "row", "corrupt", "connect", "down", "eof"})}
			warm += fmt.Sprintf(" %s at interaction %d of task %d", state[i].fault.kind, state[i].fault.at, i)
		}
	}
	got := make([][]*result, n)
	list := make([]rt.Task, n)
	desc := ""
	for i := range tasks {
		i := i
		got[i] = make([]*result, len(tasks[i]))
		desc += fmt.Sprintf(" task %d:", i)
		for _, j := range tasks[i] {
			desc += " " + j.name()
		}
		list[i] = rt.Task{Name: fmt.Sprint("task", i), Fn: func() {
			for k, j := range tasks[i] {
				db := shared
				if db != nil && j.cfg.DatabaseDSN.Value != cfg.DatabaseDSN.Value {
					db = nil
				}
				got[i][k] = j.do(db)
			}
		}}
	}
	rt.Logf("tasks:%s%s", desc, warm)
	missedStmts = nil
	setTasks(state)
	pans := rt.RunTasks(list)
	setTasks(nil)
	rt.Hit("tasks.run")
	dbo = &dbOps{}
	if shared != nil {
		shared.Close()
	}
	if len(missedStmts) > 0 { // statements that no job sends alone: ask them now, for later runs
		rt.Hit("statement.missed")
		for _, m := range missedStmts {
			m.s.ask(m.tx, m.hist, m.st)
		}
		return nil
	}
	desc += warm
	rt.ObserveString(desc)
	check := func(j *job, r *result, how string) *simutil.Violation {
		if g := r.text(); g != want[j] {
			return simutil.Violate("result", "%s |%s: %s %s: %s", w.desc, desc, j.name(), how, firstDiff(want[j], g))
		}
		return nil
	}
	for i := range tasks {
		if p := pans[i]; p != nil {
			return simutil.Violate("panic", "%s |%s: task %d: %v\n%s", w.desc, desc, i, p.Value, p.Stack)
		}
		if shared == nil && state[i].openC != 0 {
			return simutil.Violate("left-open", "%s |%s: task %d leaves %d connections open", w.desc, desc, i, state[i].openC)
		}
		for k, j := range tasks[i] {
			sw.Evals++
			r := got[i][k]
			if faulty[i] && r.err != nil && state[i].fired != "" {
				rt.Hit("job.failed")
				if r.text() == want[j] {
					continue
				}
				if !meaningful("x\n" + r.text()) {
					return simutil.Violate("silent", "%s |%s: %s fails without saying why", w.desc, desc, j.name())
				}
				continue
			}
			if v := check(j, r, "differs from the same work done alone"); v != nil {
				return v
			}
		}
	}
	// and afterwards
	for _, j := range all {
		if !rt.Chance(500) {
			continue
		}
		var r *result
		if p := solo(func() { r = j.do(nil) }); p != nil {
			return simutil.Violate("panic", "%s |%s: %s afterwards: %v\n%s", w.desc, desc, j.name(), p.Value, p.Stack)
		}
		rt.Hit("job.afterwards")
		sw.Evals++
		if v := check(j, r, "done afterwards differs from the same work in a new process"); v != nil {
			return v
		}
	}
	return nil
}
