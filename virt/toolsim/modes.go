package main

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simos"
	"github.com/frk/gosql/zzsim/simutil"
)

func (w *world) run(o procOpts) *outcome {
	if o.args == nil {
		o.args = w.args
	}
	o.cwd = w.cwd
	return proc(o)
}

// reference runs the world as it is, undisturbed, in a process of its own.
func (w *world) reference(t tree) (*outcome, tree) {
	lay(projDir, t)
	simos.Forget()
	o := w.run(procOpts{})
	return o, readTree(projDir)
}

func readKinds(k string) bool {
	switch k {
	case "open", "read", "readdir", "stat", "chdir":
		return true
	}
	return false
}

// opsWhere lists the operations of a process that satisfy a predicate.
func opsWhere(ops []simos.Op, f func(simos.Op) bool) []int {
	var out []int
	for i, op := range ops {
		if f(op) {
			out = append(out, i)
		}
	}
	return out
}

func drawErr(write bool) error {
	if write {
		return rt.Pick([]error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EDQUOT})
	}
	return rt.Pick([]error{syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.EMFILE, syscall.ESTALE})
}

func at(n int) func(simos.Op, int) bool {
	return func(_ simos.Op, i int) bool { return i == n }
}

// drawDBFault draws a fault among the interactions of a process that had ops of them.
func drawDBFault(d *dbOps) *dbFault {
	if d.ops == 0 {
		return nil
	}
	f := &dbFault{at: rt.Draw(d.ops), frac: rt.Draw(1000), col: rt.Draw(8)}
	f.kind = rt.Pick([]string{"error", "io", "row", "row", "corrupt", "badconn", "connect", "down", "eof"})
	if d.kinds[f.at] == "query" && rt.Chance(300) {
		f.kind = "row"
	}
	if f.kind == "row" && rt.Chance(250) {
		f.frac = []int{0, 999}[rt.Draw(2)]
	}
	return f
}

// meaningful tells whether an error output names something.
func meaningful(stderr string) bool {
	s := strings.TrimSpace(stderr)
	if strings.Contains(s, "%!v(PANIC") {
		return false
	}
	if i := strings.Index(s, "\n"); i >= 0 {
		s = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(s[i:]), "-"))
	}
	return len(s) > 2
}

func crashed(o *outcome) string {
	if o.bug {
		st := o.stack
		if i := strings.Index(st, "panic("); i >= 0 {
			st = st[i:]
		}
		if len(st) > 1200 {
			st = st[:1200]
		}
		return fmt.Sprintf("the program panicked: %s\n%s", o.panicv, st)
	}
	return ""
}

// ---- C12 ----

// breakSettings makes a setting of the run invalid.
func (w *world) breakSettings() (what string, must bool) {
	add := func(a ...string) string {
		w.args = append(append([]string(nil), w.args...), a...)
		return strings.Join(a, " ")
	}
	conf := func(content string) string {
		if w.conf == "" {
			w.conf = ".gosql.json"
		}
		w.tree[w.conf] = content
		return w.conf + ": " + content
	}
	switch rt.Draw(16) {
	case 0:
		return add("-fcktag", rt.Pick([]string{"1bad", "a b", "a-b"})), true
	case 1:
		return add("-fcksep", rt.Pick([]string{"ab", "::"})), true
	case 2:
		return add("-o", rt.Pick([]string{"%d.go", "%s%s.go", "%", "x%v"})), true
	case 3:
		return add("-rx", rt.Pick([]string{"(", "[a", "*x"})), true
	case 4:
		return add("-db", rt.Pick([]string{"postgres:///missing", "host=nowhere"})), true
	case 5:
		return add("-argtype", rt.Pick([]string{"nope/pkg.T", pl.Module + "/nope.T", "github.com/frk/gosql.Missing"})), true
	case 6:
		return add("-argtype", "github.com/frk/gosql.ErrorInfo"), true
	case 7:
		return add("-wd", rt.Pick([]string{"nowhere", "../nowhere/x", filepath.Join(projDir, "go.mod")})), true
	case 8:
		return add("-config", "nowhere.json"), true
	case 9:
		return conf(rt.Pick([]string{`{"recursive": tr`, `{`, ``, `[]`, `nonsense`})), true
	case 10:
		return conf(rt.Pick([]string{`{"working_directory": 7}`, `{"recursive": "yes"}`, `{"input_files": "x.go"}`, `{"filter_value_converters": [{"type": "nodot", "func": "f"}]}`})), false
	case 11:
		return conf(`{"method_name": "` + rt.Pick([]string{"my method", "func", "x.y", "(", "1st"}) + `", "database_dsn": "` + w.opts.dsn + `"}`), false
	case 12:
		w.args = nil
		for _, f := range []string{".gosql", ".gosql.json", "conf/my.json"} {
			delete(w.tree, f)
		}
		return "no data source name", true
	case 13: // outputs in the place of sources
		if len(w.outs) > 0 {
			return add("-o", rt.Pick([]string{"%s", "%s.go"})), true
		}
	case 14:
		for i, p := range w.outs {
			f := w.out[p]
			for j := range w.outs {
				g := w.out[w.outs[(i+j)%len(w.outs)]]
				if j == 0 || g.dir != f.dir {
					continue
				}
				src := w.tree[g.path()]
				delete(w.tree, g.path())
				w.tree[p] = src
				w.args = append(append([]string(nil), w.args...), "-f", filepath.Join(projDir, p), "-f", filepath.Join(projDir, f.path()))
				w.outs = nil
				return "the output of " + f.path() + " is the source " + p, true
			}
		}
	}
	return add("-f", "missing.go"), false
}

func runC12(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{bad: 250, fx: 120, mutate: 300})
	kind := rt.Weighted(4, 3, 3, 1, 3)
	what, must := "", false
	if kind == 4 {
		what, must = w.breakSettings()
		rt.Hit("fault.settings")
		rt.Logf("bad setting: %s", what)
	}
	base := w.tree.with(w.leftovers(guess(w), true))
	lay(projDir, base)
	o := procOpts{}
	var ref *outcome
	if kind >= 1 && kind <= 3 {
		var got tree
		ref, got = w.reference(base)
		_ = got
		switch kind {
		case 1:
			o.db = drawDBFault(ref.db)
		case 2:
			if c := opsWhere(ref.fsOps, func(op simos.Op) bool { return readKinds(op.Kind) }); len(c) > 0 {
				i := c[rt.Draw(len(c))]
				f := &fsFault{match: at(i), fault: simos.Fault{Err: drawErr(false)}}
				if rt.Bool() {
					p := ref.fsOps[i].Path
					f.match, f.sticky = func(op simos.Op, _ int) bool { return op.Path == p && readKinds(op.Kind) }, true
				}
				o.fs = append(o.fs, f)
			}
		case 3:
			o.loadFail = errors.New("go command required, not found: exec: \"go\": executable file not found in $PATH")
			rt.Hit("fault.loader")
		}
		lay(projDir, base)
		simos.Forget()
	}
	out := w.run(o)
	after := readTree(projDir)
	sw.Evals++
	rt.ObserveString(fmt.Sprint(kind, out.code, out.fsFired, out.db.fired))
	if s := crashed(out); s != "" {
		return simutil.Violate("panic", "%s: %s", w.desc, s)
	}
	if out.code == 0 {
		rt.Hit("exit.ok")
		if must {
			return simutil.Violate("accepted", "%s: succeeds with %s", w.desc, what)
		}
		if kind == 0 {
			if s := w.complete(after); s != "" {
				return simutil.Violate("incomplete", "%s: the run succeeded although a target is missing: %s", w.desc, s)
			}
		}
		return nil
	}
	rt.Hit("exit.failed")
	if kind == 0 {
		rt.Hit("exit.rejected")
	}
	if !meaningful(out.stderr) && out.panicv == "" {
		return simutil.Violate("silent", "%s: %s %s: the run failed without saying why (%q)", w.desc, what, faults(out), out.stderr)
	}
	if s := diff(base, after); s != "" {
		return simutil.Violate("touched", "%s: %s %s: the run failed (%s) and left: %s", w.desc, what, faults(out), out, s)
	}
	return nil
}

func faults(o *outcome) string {
	s := strings.Join(o.fsFired, ", ")
	if o.db.fired != "" {
		s += " database: " + o.db.fired
	}
	if s == "" {
		return ""
	}
	return "[fault: " + strings.ReplaceAll(s, root, "$ROOT") + "]"
}

// guess is what outputs may have looked like, for leftovers of runs that
// never succeeded.
func guess(w *world) tree {
	t := tree{}
	for _, p := range w.outs {
		f := w.out[p]
		s := "// DO NOT EDIT. This file was generated by \"github.com/frk/gosql\".\n\npackage " + f.pf.Pkg + "\n\nimport (\n\t\"github.com/frk/gosql\"\n)\n"
		for _, x := range f.pf.Targets {
			s += "\nfunc (q *" + x + ") Exec(c gosql.Conn) error {\n\treturn nil\n}\n"
		}
		t[p] = s
	}
	return t
}

// ---- C13 ----

func runC13(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{fx: 30})
	ref, clean := w.reference(w.tree)
	if ref.failed() {
		rt.Hit("world.rejected")
		return nil
	}
	base := w.tree.with(w.leftovers(clean, false))
	dirOut := ""
	if len(w.outs) > 0 && rt.Chance(60) { // the path is taken by a directory
		dirOut = rt.Pick(w.outs)
		delete(base, dirOut)
		base[dirOut+"/"] = ""
		rt.Hit("left.directory")
	}
	probe, _ := w.reference(base)
	if s := crashed(probe); s != "" {
		return simutil.Violate("panic", "%s: %s", w.desc, s)
	}
	o := procOpts{}
	c := opsWhere(probe.fsOps, func(op simos.Op) bool {
		return op.Mutates() || op.Kind == "close" && strings.HasPrefix(op.Path, projDir) && w.isOut(op.Path)
	})
	full := false
	if len(c) > 0 && rt.Chance(930) {
		i := c[rt.Draw(len(c))]
		f := &fsFault{match: at(i), fault: simos.Fault{Err: drawErr(true)}}
		if probe.fsOps[i].Kind == "write" && probe.fsOps[i].Len > 0 {
			f.fault.Short = rt.Draw(probe.fsOps[i].Len)
			if rt.Chance(100) {
				f.fault.Short = probe.fsOps[i].Len
			}
		}
		o.fs = append(o.fs, f)
		switch rt.Weighted(4, 2, 1) {
		case 1: // the disk is full from here on
			full = true
			f.match = func(op simos.Op, j int) bool { return j >= i && (op.Kind == "write" || op.Kind == "create") }
			f.sticky = true
			f.fault.Err = syscall.ENOSPC
		case 2: // and cleaning up fails
			o.fs = append(o.fs, &fsFault{match: func(op simos.Op, j int) bool {
				return j > i && (op.Kind == "remove" || op.Kind == "rename" || op.Kind == "truncate")
			},
				fault: simos.Fault{Err: syscall.EIO}, sticky: rt.Bool()})
		}
	}
	_ = full
	lay(projDir, base)
	simos.Forget()
	out := w.run(o)
	dirty := map[string]bool{}
	for _, d := range out.dirty {
		dirty[d] = true
	}
	after := readTree(projDir)
	sw.Evals++
	rt.ObserveString(fmt.Sprint(out.code, out.fsFired))
	if s := crashed(out); s != "" {
		return simutil.Violate("panic", "%s %s: %s", w.desc, faults(out), s)
	}
	if len(out.outside) > 0 {
		return simutil.Violate("outside", "%s: the run tried to change files outside of the project: %s", w.desc, strings.Join(out.outside, ", "))
	}
	cleanup := false // removing or restoring was made to fail
	for _, f := range out.fsFired {
		if strings.HasPrefix(f, "remove") || strings.HasPrefix(f, "rename") || strings.HasPrefix(f, "truncate") {
			cleanup = true
		}
	}
	// files that are not outputs
	rest := func(t tree) tree {
		c := tree{}
		for p, s := range t {
			if w.out[p] == nil {
				c[p] = s
			}
		}
		return c
	}
	if s := diff(rest(base), rest(after)); s != "" && !cleanup {
		return simutil.Violate("other-files", "%s %s: the run (%s) changed files that are not its outputs: %s", w.desc, faults(out), out, s)
	}
	if out.code == 0 {
		rt.Hit("exit.ok")
		for _, p := range w.outs {
			if after[p] != clean[p] {
				return simutil.Violate("false-success", "%s %s: the run succeeded, but %s is not complete: %s", w.desc, faults(out), p, firstDiff(clean[p], after[p]))
			}
			if dirty[p] {
				return simutil.Violate("not-flushed", "%s %s: the run succeeded, but %s is not on stable storage", w.desc, faults(out), p)
			}
		}
		return nil
	}
	rt.Hit("exit.failed")
	if !meaningful(out.stderr) && out.panicv == "" {
		return simutil.Violate("silent", "%s %s: the run failed without saying why", w.desc, faults(out))
	}
	for _, p := range w.outs {
		got, ok := after[p]
		switch {
		case !ok, got == clean[p]:
		case got == base[p] && has(base, p):
		case cleanup:
			rt.Hit("cleanup.failed")
		default:
			return simutil.Violate("partial", "%s %s: the run failed and left %s with neither its former nor its new content (%d bytes; former %d, new %d)", w.desc, faults(out), p, len(got), len(base[p]), len(clean[p]))
		}
	}
	if len(out.fsFired) == 0 && dirOut == "" {
		return simutil.Violate("spurious", "%s: the run failed without a fault, next to leftovers: %s", w.desc, out)
	}
	return nil
}

func has(t tree, p string) bool { _, ok := t[p]; return ok }

func (w *world) isOut(abs string) bool {
	r, err := filepath.Rel(projDir, abs)
	return err == nil && w.out[r] != nil
}

// ---- C14 ----

func runC14(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{fx: 30})
	ref, clean := w.reference(w.tree)
	if ref.failed() {
		rt.Hit("world.rejected")
		return nil
	}
	left := w.leftovers(clean, false)
	lay(projDir, w.tree.with(left))
	simos.Forget()
	want := clean.clone()
	for p, c := range left { // outputs whose source is gone stay
		if w.out[p] == nil {
			want[p] = c
		}
	}
	n := 1 + rt.Draw(3)
	ops := ref
	hist := ""
	for i := 0; i < n; i++ {
		o := procOpts{}
		k := rt.Weighted(5, 2, 1, 1)
		fo := func() int {
			c := opsWhere(ops.fsOps, func(op simos.Op) bool { return op.Mutates() })
			if len(c) == 0 || rt.Chance(150) {
				return rt.Draw(len(ops.fsOps) + 1)
			}
			return c[rt.Draw(len(c))]
		}
		switch k {
		case 0:
			j := fo()
			f := &fsFault{match: at(j), fault: simos.Fault{Crash: true}}
			if j < len(ops.fsOps) && ops.fsOps[j].Kind == "write" && ops.fsOps[j].Len > 0 {
				f.fault.Short = rt.Draw(ops.fsOps[j].Len)
				if p, ok := clean[short(ops.fsOps[j].Path)]; ok {
					f.fault.Short = cut(p)
				}
			}
			o.fs = append(o.fs, f)
		case 1:
			j := fo()
			f := &fsFault{match: at(j), fault: simos.Fault{Err: drawErr(true)}, sticky: false}
			if j < len(ops.fsOps) && ops.fsOps[j].Kind == "write" && ops.fsOps[j].Len > 0 {
				f.fault.Short = rt.Draw(ops.fsOps[j].Len)
			}
			o.fs = append(o.fs, f)
			if rt.Chance(300) {
				o.fs = append(o.fs, &fsFault{match: func(op simos.Op, _ int) bool { return op.Kind == "remove" }, fault: simos.Fault{Err: syscall.EIO}, sticky: true})
			}
		case 2:
			o.db = drawDBFault(ref.db)
		case 3:
			o.loadFail = errors.New("signal: killed")
			rt.Hit("fault.loader")
		}
		out := w.run(o)
		hist += fmt.Sprintf(" %s %s;", out, faults(out))
		if s := crashed(out); s != "" {
			return simutil.Violate("panic", "%s:%s %s", w.desc, hist, s)
		}
		rt.ObserveString(fmt.Sprint(k, out.code, out.crashed, out.fsFired))
		if out.crashed || rt.Chance(100) {
			rt.Hit("interrupted")
			if rt.Bool() {
				l := simos.PowerLoss(rt.Draw)
				if len(l) > 0 {
					rt.Hit("fault.powerloss")
					rt.Logf("power loss: %s", strings.Join(l, ", "))
					hist += " power loss: " + strings.Join(l, ", ") + ";"
				}
			}
		}
	}
	before := readTree(projDir)
	out := w.run(procOpts{})
	after := readTree(projDir)
	sw.Evals++
	if out.failed() {
		return simutil.Violate("rerun-fails", "%s: after%s the next run fails: %s\nleft behind: %s", w.desc, hist, out, diff(clean, before))
	}
	if s := diff(want, after); s != "" {
		return simutil.Violate("rerun-differs", "%s: after%s the next run leaves other files than an uninterrupted one: %s", w.desc, hist, s)
	}
	return nil
}

// ---- C15 ----

func runC15(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{bad: 120, fx: 200, dsnB: true, mutate: 250})
	if (w.conf == ".gosql" || w.conf == ".gosql.json") && rt.Chance(150) {
		// both names of the configuration file
		w.tree[map[string]string{".gosql": ".gosql.json", ".gosql.json": ".gosql"}[w.conf]] = `{"quote_identifiers": true, "database_dsn": "` + dsnB + `", "output_file_name_format": "%s_q.go"}`
		rt.Hit("two.config.files")
	}
	if rt.Chance(60) {
		what, _ := w.breakSettings()
		w.desc += " with " + what
		rt.Hit("bad.settings")
	}
	ref, clean := w.reference(w.tree)
	n := 1 + rt.Draw(3)
	for i := 0; i < n; i++ {
		t := w.tree
		if !ref.failed() && rt.Chance(400) {
			t = w.tree.clone()
			for p, c := range w.leftovers(clean, false) {
				if w.out[p] != nil {
					t[p] = c
				}
			}
		}
		lay(projDir, t)
		simos.Forget()
		out := w.run(procOpts{shuffle: true})
		after := readTree(projDir)
		sw.Evals++
		rt.ObserveString(fmt.Sprint(out.code))
		if out.code != ref.code || out.panicv != ref.panicv {
			return simutil.Violate("outcome", "%s: once %s, then %s", w.desc, ref, out)
		}
		if out.stderr != ref.stderr {
			return simutil.Violate("message", "%s: the run fails with another message: once\n%s\nthen\n%s", w.desc, ref.stderr, out.stderr)
		}
		want := clean
		if ref.failed() {
			rt.Hit("exit.failed")
			want = t
		} else {
			rt.Hit("exit.ok")
			want = t.with(clean)
		}
		if s := diff(want, after); s != "" {
			return simutil.Violate("output", "%s: the outputs are not the same: %s", w.desc, s)
		}
	}
	return nil
}

// ---- C16 ----

func runC16(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{plain: true, fx: 60, bad: 30})
	// each file alone
	alone := map[*poolFile]string{}
	bad := map[*poolFile]string{}
	for _, p := range w.outs {
		f := w.out[p]
		lay(projDir, w.tree)
		simos.Forget()
		o := w.run(procOpts{args: append(append([]string(nil), w.args...), "-f", filepath.Join(projDir, f.path()))})
		got := readTree(projDir)
		if o.failed() {
			bad[f.pf] = o.String()
			continue
		}
		sw.Evals++
		src, ok := got[p]
		if !ok {
			return simutil.Violate("missing", "%s: processing %s alone leaves no output", w.desc, f.path())
		}
		alone[f.pf] = src
		want := w.tree.clone()
		want[p] = src
		if s := diff(want, got); s != "" {
			return simutil.Violate("other-outputs", "%s: processing %s alone changes other files: %s", w.desc, f.path(), s)
		}
	}
	n := 1 + rt.Draw(2)
	for i := 0; i < n; i++ {
		v := w
		what := ""
		o := procOpts{}
		k := rt.Draw(5)
		switch k {
		case 0:
			what = "together"
		case 1, 2: // after other work in the same process
			what = "after other work"
			resetAll()
			for j, m := 0, 1+rt.Draw(2); j < m; j++ {
				x := drawWorld(profile{bad: 150, fx: 100, dsnB: true})
				if rt.Chance(300) { // the same project against the other database, or with other settings
					x = w.copy()
					if rt.Bool() {
						x.opts.dsn = dsnB
					}
					x.opts.qid = rt.Bool()
					x.opts.ctx = rt.Bool()
					if rt.Bool() {
						s := ""
						x.opts.fcktag = &s
					}
					if rt.Bool() {
						x.setConverter()
					}
					x.finish(0, false)
				}
				lay(projDir, x.tree)
				simos.Forget()
				po := procOpts{keep: true, args: x.args, cwd: x.cwd}
				if rt.Chance(300) {
					po.db = &dbFault{at: rt.Draw(60), kind: rt.Pick([]string{"error", "row", "io", "corrupt"}), frac: rt.Draw(1000), col: rt.Draw(8)}
				}
				r := proc(po)
				what += " (" + x.desc + " => " + r.String() + ")"
				rt.Hit("other.work")
				if r.failed() {
					rt.Hit("other.work.failed")
				}
			}
			o.keep = true
			rt.Hit("same.process")
		case 3: // in another order: the directories have other names
			v = w.renamed()
			what = "in other directories"
		case 4: // fewer files around
			if len(w.outs) == 0 {
				break
			}
			v = w.copy()
			keep := w.out[rt.Pick(w.outs)]
			fs, _ := closure(nil, keep.pf)
			in := map[*poolFile]bool{}
			for _, f := range fs {
				in[f] = true
			}
			v.files = nil
			for _, f := range w.files {
				if f.dir != keep.dir || in[f.pf] {
					v.files = append(v.files, f)
				} else {
					delete(v.tree, f.path())
				}
			}
			v.finish(0, false)
			what = "with fewer files"
		}
		lay(projDir, v.tree)
		simos.Forget()
		out := v.run(o)
		after := readTree(projDir)
		sw.Evals++
		rt.ObserveString(fmt.Sprint(k, out.code, len(v.outs)))
		rt.Hit("form." + strings.Fields(what + " none")[0])
		anyBad := ""
		for _, p := range v.outs {
			if b, ok := bad[v.out[p].pf]; ok {
				anyBad = v.out[p].path() + ": " + b
			}
		}
		if out.failed() && anyBad == "" {
			return simutil.Violate("outcome", "%s, %s: every file is accepted alone, but the run fails: %s", v.desc, what, out)
		}
		if !out.failed() && anyBad != "" {
			return simutil.Violate("outcome", "%s, %s: the run succeeds although a file is rejected alone: %s", v.desc, what, anyBad)
		}
		if out.failed() {
			rt.Hit("exit.failed")
			continue
		}
		rt.Hit("exit.ok")
		for _, p := range v.outs {
			f := v.out[p]
			if after[p] != alone[f.pf] {
				return simutil.Violate("output", "%s, %s: the output of %s differs from that of the file alone: %s", v.desc, what, f.path(), firstDiff(alone[f.pf], after[p]))
			}
		}
	}
	return nil
}

func (w *world) copy() *world {
	c := *w
	c.tree = w.tree.clone()
	c.files = append([]*wfile(nil), w.files...)
	for _, f := range []string{".gosql", ".gosql.json", "conf/my.json"} {
		delete(c.tree, f)
	}
	return &c
}

// renamed is the same project with the directories of the packages exchanged.
func (w *world) renamed() *world {
	c := w.copy()
	perm := rt.Perm(len(dirNames))
	to := map[string]string{}
	for i, d := range dirNames {
		to[d] = dirNames[perm[(i+1)%len(perm)]]
	}
	for p := range c.tree {
		delete(c.tree, p)
	}
	for p, s := range w.tree {
		q := p
		for d, e := range to {
			if strings.HasPrefix(p, d+"/") {
				q = e + p[len(d):]
				break
			}
		}
		if p != ".gosql" && p != ".gosql.json" && p != "conf/my.json" {
			c.tree[q] = s
		}
	}
	c.files = nil
	for _, f := range w.files {
		c.files = append(c.files, &wfile{f.pf, to[f.dir]})
	}
	if c.wd != "." {
		c.wd = to[c.wd]
	}
	c.finish(0, false)
	return c
}

// ---- C17 ----

func runC17(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{fx: 100, bad: 40, maxPkgs: 2, dsnB: true})
	ref, clean := w.reference(w.tree)
	if ref.db.ops == 0 {
		return nil
	}
	if ref.openConn != 0 {
		return simutil.Violate("left-open", "%s: %d connections are open after the run (%s)", w.desc, ref.openConn, ref)
	}
	resetAll()
	hist := ""
	for i, n := 0, 1+rt.Draw(3); i < n; i++ {
		f := drawDBFault(ref.db)
		lay(projDir, w.tree)
		simos.Forget()
		out := w.run(procOpts{keep: true, db: f})
		after := readTree(projDir)
		sw.Evals++
		rt.ObserveString(fmt.Sprint(out.db.fired, f.at, out.code))
		hist += fmt.Sprintf(" [%s at interaction %d (%s): %s]", f.kind, f.at, ref.db.kinds[f.at], out)
		if s := crashed(out); s != "" {
			return simutil.Violate("panic", "%s:%s %s", w.desc, hist, s)
		}
		if out.openConn != 0 {
			return simutil.Violate("left-open", "%s:%s %d connections are open after the run", w.desc, hist, out.openConn)
		}
		if out.db.must && !out.failed() {
			return simutil.Violate("swallowed", "%s:%s the run succeeds although the database failed (%s)", w.desc, hist, out.db.fired)
		}
		if out.failed() {
			rt.Hit("exit.failed")
			if !meaningful(out.stderr) && out.panicv == "" {
				return simutil.Violate("silent", "%s:%s the run fails without saying why (%q)", w.desc, hist, out.stderr)
			}
			if s := diff(w.tree, after); s != "" {
				return simutil.Violate("touched", "%s:%s the run fails and changes files: %s", w.desc, hist, s)
			}
		} else {
			rt.Hit("exit.ok")
			if s := diff(clean, after); s != "" {
				return simutil.Violate("wrong-output", "%s:%s the run succeeds with other outputs: %s", w.desc, hist, s)
			}
		}
	}
	lay(projDir, w.tree)
	simos.Forget()
	out := w.run(procOpts{keep: true})
	after := readTree(projDir)
	sw.Evals++
	if out.code != ref.code || out.stderr != ref.stderr || out.panicv != ref.panicv {
		return simutil.Violate("poisoned", "%s: after%s the same process ends with %s, a new one with %s", w.desc, hist, out, ref)
	}
	if s := diff(clean, after); s != "" {
		return simutil.Violate("poisoned", "%s: after%s the same process produces other outputs than a new one: %s", w.desc, hist, s)
	}
	if out.openConn != 0 {
		return simutil.Violate("left-open", "%s:%s %d connections are open after the run", w.desc, hist, out.openConn)
	}
	return nil
}

// ---- C18 ----

func runC18(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{fx: 350, bad: 60})
	lay(projDir, w.tree)
	simos.Forget()
	out := w.run(procOpts{})
	sw.Evals++
	check := func(o *outcome) *simutil.Violation {
		rt.ObserveString(fmt.Sprint(o.code, o.db.stmts))
		if len(o.db.changed) > 0 {
			return simutil.Violate("changed", "%s %s (%s): %s", w.desc, faults(o), o, strings.Join(o.db.changed, "; "))
		}
		if o.failed() {
			rt.Hit("exit.failed")
		} else {
			rt.Hit("exit.ok")
		}
		return nil
	}
	if v := check(out); v != nil {
		return v
	}
	if rt.Bool() {
		f := drawDBFault(out.db)
		if f == nil {
			return nil
		}
		lay(projDir, w.tree)
		simos.Forget()
		o := w.run(procOpts{db: f, keep: rt.Bool()})
		sw.Evals++
		return check(o)
	}
	return nil
}

// ---- C20 ----

func runC20(sw *simutil.Worker) *simutil.Violation {
	w := drawWorld(profile{})
	ref, clean := w.reference(w.tree)
	if ref.failed() {
		rt.Hit("world.rejected")
		return nil
	}
	sw.Evals++
	want := w.tree.clone()
	for _, p := range w.outs {
		if !has(clean, p) {
			return simutil.Violate("skipped", "%s: the run succeeds without the output %s of %s", w.desc, p, w.out[p].path())
		}
		want[p] = clean[p]
	}
	if s := w.complete(clean); s != "" {
		return simutil.Violate("skipped", "%s: the run succeeds, but %s", w.desc, s)
	}
	if s := diff(want, clean); s != "" {
		return simutil.Violate("unselected", "%s: the run changes more than the outputs of the selected files: %s", w.desc, s)
	}
	o := procOpts{}
	t := w.tree.clone()
	args := append([]string(nil), w.args...)
	must, what := false, ""
	src := map[string]bool{} // sources with outputs
	for _, f := range w.out {
		src[filepath.Join(projDir, f.path())] = true
	}
	switch rt.Weighted(8, 1, 1, 1) {
	case 0:
		c := opsWhere(ref.fsOps, func(op simos.Op) bool { return readKinds(op.Kind) && strings.HasPrefix(op.Path, root) })
		if len(c) == 0 {
			return nil
		}
		// prefer what the outputs depend on
		switch k := rt.Draw(10); {
		case k < 3: // directories
			d := opsWhere(ref.fsOps, func(op simos.Op) bool {
				return op.Kind == "readdir" || readKinds(op.Kind) && op.Kind != "stat" && w.isDir(op.Path)
			})
			if len(d) > 0 {
				c = d
			}
		case k < 7:
			d := opsWhere(ref.fsOps, func(op simos.Op) bool {
				return readKinds(op.Kind) && (src[op.Path] || w.conf != "" && op.Path == filepath.Join(projDir, w.conf) || op.Path == filepath.Join(projDir, w.wd))
			})
			if len(d) > 0 {
				c = d
			}
		}
		i := c[rt.Draw(len(c))]
		op := ref.fsOps[i]
		f := &fsFault{match: at(i), fault: simos.Fault{Err: drawErr(false)}}
		what = fmt.Sprintf("%s of %s fails once (%v)", op.Kind, short(op.Path), f.fault.Err)
		if rt.Bool() {
			f.match, f.sticky = func(x simos.Op, _ int) bool { return x.Path == op.Path && readKinds(x.Kind) && x.Kind != "stat" }, true
			what = fmt.Sprintf("%s cannot be read (%v)", short(op.Path), f.fault.Err)
			must = src[op.Path] || w.conf != "" && op.Path == filepath.Join(projDir, w.conf) || op.Path == filepath.Join(projDir, w.wd)
			if w.conf != "" && op.Path == projDir && !strings.HasPrefix(w.conf, "conf") {
				must = true
			}
			rt.Hit("read.sticky")
		} else {
			rt.Hit("read.once")
		}
		o.fs = append(o.fs, f)
	case 1:
		args = append(args, "-f", "no_such_file.go")
		what, must = "-f names a file that does not exist", true
		rt.Hit("missing.file")
	case 2:
		if len(w.outs) == 0 {
			return nil
		}
		// a source that does not parse
		f := w.out[rt.Pick(w.outs)]
		s := t[f.path()]
		i := strings.Index(s, "\ntype ")
		if i < 0 {
			return nil
		}
		j := i + rt.Draw(len(s)-i)
		t[f.path()] = s[:j] + rt.Pick([]string{"\n}}\n", "\n)(\n", "\ntype struct {\n", " <<<<<<< HEAD\n"}) + s[j:]
		// a target must still be recognisable as one
		if ok, targets := parses(t[f.path()]); ok || targets == 0 {
			return nil
		}
		what, must = f.path()+" does not parse", true
		rt.Hit("source.broken")
	case 3:
		o.loadFail = errors.New("fork/exec /usr/local/go/bin/go: resource temporarily unavailable")
		what, must = "the loader fails", true
		rt.Hit("fault.loader")
	}
	o.args = args
	lay(projDir, t)
	simos.Forget()
	out := w.run(o)
	after := readTree(projDir)
	sw.Evals++
	rt.ObserveString(fmt.Sprint(out.code, out.fsFired))
	if s := crashed(out); s != "" {
		return simutil.Violate("panic", "%s: %s: %s", w.desc, what, s)
	}
	if out.code != 0 {
		rt.Hit("exit.failed")
		if !meaningful(out.stderr) && out.panicv == "" {
			return simutil.Violate("silent", "%s: %s: the run failed without saying why", w.desc, what)
		}
		return nil
	}
	rt.Hit("exit.ok")
	if len(out.fsFired) == 0 && len(o.fs) > 0 {
		must = false
	}
	if must {
		return simutil.Violate("ignored", "%s: %s, and the run succeeds: %s", w.desc, what, diff(clean, after))
	}
	if s := diff(clean, after); s != "" {
		return simutil.Violate("ignored", "%s: %s, and the run succeeds with other outputs: %s", w.desc, what, s)
	}
	return nil
}
