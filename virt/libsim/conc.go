package main

import (
	"fmt"
	"reflect"

	"github.com/frk/gosql"
	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simutil"
)

// A libCall is one call a task makes; it only touches its own data and what
// the library shares.
type libCall struct {
	kind int
	e    *Entry
	src  interface{}
	in   reflect.Value
	ops  []fop
	v2   bool
	pos  int
}

func drawCall() libCall {
	c := libCall{kind: rt.Draw(4)}
	switch c.kind {
	case 0:
		c.e = Registry[toIdx[rt.Draw(len(toIdx))]]
		c.src, _ = drawValue(c.e)
	case 1:
		c.e = Registry[fromIdx[rt.Draw(len(fromIdx))]]
		c.in, _ = drawGo(c.e)
	case 2:
		c.v2 = rt.Bool()
		for n := rt.Range(1, 6); n > 0; n-- {
			c.ops = append(c.ops, drawFop(0))
		}
		c.pos = rt.Draw(20)
	default: // what generated code does for IN lists
		c.pos = 1 + rt.Draw(5)
	}
	return c
}

// do performs the call; the function it returns describes the outcome and is
// called when no tasks run (formatting shares pools between goroutines, which
// would order the tasks for the race detector).
func (c *libCall) do() func() string {
	switch c.kind {
	case 0:
		p := reflect.New(c.e.Type)
		err, pan := scan(c.e, p.Interface(), cloneVal(c.src))
		return func() string {
			if err != nil || pan != nil {
				return fmt.Sprintf("scan error %v %v", err != nil, pan != nil)
			}
			return simutil.Dump(p.Elem().Interface())
		}
	case 1:
		v, err, pan := encode(c.e.From(c.in.Interface()))
		return func() string {
			if err != nil || pan != nil {
				return fmt.Sprintf("encode error %v %v", err != nil, pan != nil)
			}
			if hasMap(c.e.Type) && c.e.To != nil {
				p := reflect.New(c.e.Type)
				if err, pan := scan(c.e, p.Interface(), v); err == nil && pan == nil {
					return simutil.Dump(p.Elem().Interface())
				}
			}
			return simutil.Dump(v)
		}
	case 2:
		f := newSimFilter(c.v2, "ts")
		errs := applyFopsErr(&f.c, c.ops)
		s, p := f.c.Filter().ToSQL(c.pos)
		s2, p2 := f.c.CountFilter().ToSQL(c.pos)
		return func() string {
			return fmt.Sprintf("%q %s %q %s %v", s, simutil.Dump(p), s2, simutil.Dump(p2), errs)
		}
	default:
		s := gosql.InValueList(c.pos, c.pos)
		return func() string { return s }
	}
}

// runC08: several callers at once.
func runC08(w *simutil.Worker) *simutil.Violation {
	n := 2 + rt.Draw(3)
	calls := make([][]libCall, n)
	want := make([][]string, n)
	got := make([][]func() string, n)
	for i := range calls {
		for k := rt.Range(1, 4); k > 0; k-- {
			c := drawCall()
			if i > 0 && rt.Draw(2) == 1 {
				// another caller does the same kind of thing, which is where shared state would meet
				c = calls[0][rt.Draw(len(calls[0]))]
				if c.kind == 1 {
					c.in, _ = drawGo(c.e)
				} else if c.kind == 0 {
					c.src, _ = drawValue(c.e)
				}
			}
			calls[i] = append(calls[i], c)
		}
		got[i] = make([]func() string, len(calls[i]))
	}
	before := dumpColmaps()
	shuf := rt.ShuffleMaps
	rt.ShuffleMaps = false // map order is drawn by the sequential checks
	defer func() { rt.ShuffleMaps = shuf }()
	for i := range calls {
		for k := range calls[i] {
			want[i] = append(want[i], calls[i][k].do()())
		}
	}
	sample = ""
	var list []rt.Task
	for i := range calls {
		i := i
		list = append(list, rt.Task{Name: fmt.Sprint("caller", i), Fn: func() {
			for k := range calls[i] {
				got[i][k] = calls[i][k].do()
			}
		}})
	}
	pan := rt.RunTasks(list)
	rt.Hit("tasks.run")
	for i := range calls {
		for k := range calls[i] {
			w.Evals++
			c := &calls[i][k]
			name := ""
			if c.e != nil {
				name = c.e.ToName
				if c.kind == 1 {
					name = c.e.FromName
				}
			}
			if len(sample) < 300 {
				sample += fmt.Sprintf("task%d: kind%d %s; ", i, c.kind, name)
			}
			if pan[i] != nil {
				return simutil.Violate("panic", "caller %d: %v\n%s", i, pan[i].Value, pan[i].Stack)
			}
			if g := got[i][k](); g != want[i][k] {
				return simutil.Violate("isolation", "caller %d call %d (kind %d %s): alone %s, concurrently %s", i, k, c.kind, name, want[i][k], g)
			}
		}
	}
	if after := dumpColmaps(); after != before {
		return simutil.Violate("colmap", "a shared column map changed: %s\n  to %s", before, after)
	}
	return nil
}
