package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simos"
	"github.com/frk/gosql/zzsim/simpkgs"
	"github.com/frk/gosql/zzsim/toolmain"
)

// tree is the content of a directory: path below it -> content. Empty
// directories are listed with a slash.
type tree map[string]string

func readTree(dir string) tree {
	t := tree{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			if es, err := os.ReadDir(p); rel != "." && (err != nil || len(es) == 0) {
				t[rel+"/"] = ""
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			t[rel] = "unreadable: " + err.Error()
			return nil
		}
		t[rel] = string(b)
		return nil
	})
	return t
}

// lay makes the directory hold exactly the tree.
func lay(dir string, want tree) {
	have := readTree(dir)
	var gone []string
	for p := range have {
		if _, ok := want[p]; !ok {
			gone = append(gone, p)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(gone)))
	for _, p := range gone {
		p = filepath.Join(dir, p)
		for len(p) > len(dir) && os.Remove(p) == nil {
			p = filepath.Dir(p)
		}
	}
	var ps []string
	for p := range want {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		c := want[p]
		f := filepath.Join(dir, p)
		if strings.HasSuffix(p, "/") {
			_ = os.MkdirAll(f, 0o755)
			continue
		}
		if old, ok := have[p]; ok && old == c {
			continue
		}
		if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
			_ = os.MkdirAll(filepath.Dir(f), 0o755)
			if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
				panic(rt.Abort{Reason: err.Error()})
			}
		}
	}
}

func (t tree) clone() tree {
	c := tree{}
	for k, v := range t {
		c[k] = v
	}
	return c
}

// diff describes how two trees differ ("" when they do not).
func diff(a, b tree) string {
	var out []string
	for p, c := range a {
		d, ok := b[p]
		if !ok {
			out = append(out, p+" is missing")
		} else if c != d {
			out = append(out, p+" differs: "+firstDiff(c, d))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p+" is new")
		}
	}
	sort.Strings(out)
	if len(out) > 4 {
		out = append(out[:4], fmt.Sprintf("and %d more", len(out)-4))
	}
	return strings.Join(out, "; ")
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(end)", "(end)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %.160q instead of %.160q", i+1, y, x)
		}
	}
	return ""
}

// outcome is how a simulated process ended.
type outcome struct {
	code    int
	stderr  string
	crashed bool
	panicv  string // a Go panic of the program
	bug     bool   // not a way the program ends on purpose
	stack   string

	fsOps    []simos.Op
	mutated  []string
	outside  []string
	dirty    []string // written and not durable
	db       *dbOps
	fsFired  []string // faults delivered, with the operation
	fsReads  int
	openConn int // open when the program was done
	openRows int
}

func (o *outcome) failed() bool { return o.code != 0 || o.panicv != "" || o.crashed }

func (o *outcome) String() string {
	s := fmt.Sprintf("exit %d", o.code)
	if o.crashed {
		s = "crashed"
	}
	if o.panicv != "" {
		s = "panicked: " + o.panicv
	}
	if e := strings.TrimSpace(o.stderr); e != "" {
		s += fmt.Sprintf(" %.300q", e)
	}
	return s
}

// faults of the file system during a process.
type fsFault struct {
	match  func(op simos.Op, i int) bool
	fault  simos.Fault
	sticky bool // every matching operation, not just the first
}

type procOpts struct {
	keep     bool // same process as before: keep the program's state
	args     []string
	cwd      string
	fs       []*fsFault
	db       *dbFault
	shuffle  bool // rows, maps, directory entries
	loadFail error
	quiet    bool // not in the trace
}

// proc runs the tool once.
func proc(o procOpts) *outcome {
	if !o.keep {
		resetAll()
	}
	out := &outcome{}
	dbo = &dbOps{fault: o.db, shuffle: o.shuffle}
	out.db = dbo
	rt.ShuffleMaps = o.shuffle
	simos.Shuffle = o.shuffle
	simos.Begin(root, o.cwd)
	simos.Args = append([]string{"gosql"}, o.args...)
	simpkgs.FailLoad = nil
	if o.loadFail != nil {
		err := o.loadFail
		n := 0
		simpkgs.FailLoad = func() error {
			n++
			out.fsFired = append(out.fsFired, "loader")
			return err
		}
	}
	done := make([]bool, len(o.fs))
	nops := 0
	simos.Decide = func(op simos.Op) simos.Fault {
		i := nops
		nops++
		out.fsOps = append(out.fsOps, op)
		for j, f := range o.fs {
			if done[j] || !f.match(op, i) {
				continue
			}
			if !f.sticky {
				done[j] = true
			}
			what := op.Kind
			if f.fault.Crash {
				rt.Hit("fault.crash")
				what = "crash before " + what
			} else {
				rt.Hit("fault.fs." + op.Kind)
			}
			out.fsFired = append(out.fsFired, what+" "+short(op.Path))
			rt.Logf("file system fault: " + what + " " + short(op.Path))
			return f.fault
		}
		return simos.Fault{}
	}
	snap := func() {
		out.openConn, out.openRows = dbo.openC, dbo.openR
	}
	simos.OnExit = snap
	code := 0
	p := rt.RunSolo(func() {
		toolmain.ZZMain()
	})
	switch {
	case p == nil:
		snap()
	default:
		switch v := p.Value.(type) {
		case simos.Crashed:
			out.crashed = true
		case simos.ExitPanic:
			code = v.Code
		case rt.Abort:
			panic(v)
		default:
			code = 2
			out.panicv = fmt.Sprint(p.Value)
			out.bug = true
			out.stack = p.Stack
			snap()
		}
	}
	out.code = code
	for m := range simos.Mutated {
		out.mutated = append(out.mutated, short(m))
	}
	sort.Strings(out.mutated)
	out.outside = simos.Outside
	out.stderr = strings.ReplaceAll(simos.StderrTo.String(), root, "$ROOT")
	out.dirty = nil
	for _, d := range simos.Dirty() {
		out.dirty = append(out.dirty, short(d))
	}
	simos.End()
	simos.Decide = nil
	rt.ShuffleMaps, simos.Shuffle = false, false
	rt.Hit("proc")
	if rt.Tracing() && !o.quiet {
		rt.Logf("gosql %s: %s", strings.ReplaceAll(strings.Join(o.args, " "), root, "$ROOT"), strings.ReplaceAll(out.String(), root, "$ROOT"))
	}
	return out
}

func short(p string) string {
	if r, err := filepath.Rel(projDir, p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return strings.ReplaceAll(p, root, "$ROOT")
}

var _ = bytes.Equal
