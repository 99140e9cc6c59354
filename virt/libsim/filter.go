package main

import (
	"fmt"
	"regexp"
	"strconv"

	"github.com/frk/gosql"
	"github.com/frk/gosql/filter"
	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simutil"
)

// The operations a caller can perform on a filter. A fop is data, so that the
// same operations can be applied to a twin that nobody else touches.
type fop struct {
	kind   int
	col    string
	op     string
	val    interface{}
	desc   bool
	nf     bool
	n      int64
	text   string
	nested []fop
}

var fcols = []string{"id", "t.name", `u."age"`, "created_at"}

func drawFop(depth int) fop {
	f := fop{kind: rt.Draw(13)}
	switch f.kind {
	case 0, 1: // column
		f.col = rt.Pick(fcols)
		f.op = rt.Pick([]string{"=", "<>", "<", ">=", "LIKE"})
		switch rt.Draw(7) {
		case 0:
			f.val = int(rt.Draw(100))
		case 1:
			f.val = "s" + strconv.Itoa(rt.Draw(100))
		case 2:
			f.val = nil
		case 3:
			f.val = true
		case 4:
			f.val = false
		case 5:
			f.val = int64(rt.Draw(9))
		default:
			f.val = 1.5
		}
	case 2: // IN / ANY
		f.col = rt.Pick(fcols)
		f.op = rt.Pick([]string{"IN", "ANY", "in", "any"})
		n := rt.Small(4)
		switch rt.Draw(5) {
		case 0:
			s := make([]int64, n)
			for i := range s {
				s[i] = int64(rt.Draw(50))
			}
			f.val = s
		case 1:
			s := make([]int, n)
			for i := range s {
				s[i] = rt.Draw(50)
			}
			f.val = s
		case 2:
			s := make([]int16, n)
			for i := range s {
				s[i] = int16(rt.Draw(50))
			}
			f.val = s
		case 3:
			s := make([]string, n)
			for i := range s {
				s[i] = "v" + strconv.Itoa(rt.Draw(50))
			}
			f.val = s
		default:
			f.val = 5.5 // not supported: ignored
		}
	case 3: // text search
		f.text = rt.Pick([]string{"foo", "foo bar", " a  b ", ""})
	case 4, 5: // and / or
		if depth < 3 && rt.Draw(2) == 1 {
			for n := rt.Range(1, 3); n > 0; n-- {
				f.nested = append(f.nested, drawFop(depth+1))
			}
		}
	case 6:
		f.col = rt.Pick(fcols)
		f.desc, f.nf = rt.Bool(), rt.Bool()
	case 7:
		f.n = int64(rt.Draw(5)) * 10
	case 8:
		f.n = int64(rt.Draw(5)) * 3
	case 9:
		f.n = int64(rt.Draw(4))
	case 10: // FQL
		if rt.Draw(2) == 1 {
			f.text = drawFQL()
			break
		}
		f.text = rt.Pick([]string{"a:1", "a:1;b:>2", "(a:1,b:<=\"x\");c:!null", "unknown:1", "a:", "c:true,(d:false;a:<3)", "b:\"y\"", "((a:1))", "d:1.5"})
	case 11: // sort
		if rt.Draw(2) == 1 {
			f.text = drawSort()
			break
		}
		f.text = rt.Pick([]string{"a", "-a,b", "c,-d,,a", "unknown,-b", "-", "a,-unknown"})
	case 12: // strict
	}
	return f
}

var fkeys = []string{"a", "b", "c", "d", "A", "C", "aa", "unknown", "id", "t.name", "B", "a"}

// drawFQL draws a filter expression; some have faults.
func drawFQL() string {
	b := ""
	depth := 0
	for n := rt.Range(1, 5); n > 0; n-- {
		for depth < 3 && rt.Chance(200) {
			b += "("
			depth++
		}
		op := rt.Pick([]string{":", ":", ":!", ":>", ":<", ":>=", ":<="})
		val := rt.Pick([]string{"1", "0", "-7", "2.5", "true", "false", "null", `"x"`, `"it\"s"`, `""`, "d1257894000", "99999999999999999999", `"%_"`})
		b += rt.Pick(fkeys) + op + val
		for depth > 0 && rt.Chance(300) {
			b += ")"
			depth--
		}
		if n > 1 {
			b += rt.Pick([]string{";", ";", ",", ",", ";"})
		}
	}
	for ; depth > 0; depth-- {
		b += ")"
	}
	if rt.Chance(60) { // cut off
		b = b[:rt.Draw(len(b))]
	}
	return b
}

func drawSort() string {
	b := ""
	for n := rt.Range(1, 4); n > 0; n-- {
		b += rt.Pick([]string{"", "-", ""}) + rt.Pick(fkeys)
		if n > 1 {
			b += ","
		}
	}
	return b
}

func applyFops(c *filter.Constructor, ops []fop) (errs []string) {
	for _, e := range applyFopsErr(c, ops) {
		errs = append(errs, fmt.Sprint(e))
	}
	return errs
}

func applyFopsErr(c *filter.Constructor, ops []fop) (errs []error) {
	for _, f := range ops {
		switch f.kind {
		case 0, 1, 2:
			c.Col(f.col, f.op, f.val)
		case 3:
			c.TextSearch(f.text)
		case 4, 5:
			var nest func()
			if f.nested != nil {
				nest = func() { errs = append(errs, applyFopsErr(c, f.nested)...) }
			}
			if f.kind == 4 {
				c.And(nest)
			} else {
				c.Or(nest)
			}
		case 6:
			if f.nf {
				c.OrderBy(f.col, f.desc, f.nf)
			} else {
				c.OrderByV2(f.col, f.desc, f.n%2 == 0, f.nf)
			}
		case 7:
			c.Limit(f.n)
		case 8:
			c.Offset(f.n)
		case 9:
			c.Page(f.n)
		case 10:
			errs = append(errs, c.UnmarshalFQL(f.text))
		case 11:
			errs = append(errs, c.UnmarshalSort(f.text))
		case 12:
			c.StrictSwitch()
		}
	}
	return errs
}

var colmap = map[string]string{"a": "id", "b": "t.name", "c": `u."age"`, "d": "created_at"}
var colmapV2 = map[string]filter.Column{
	"a": {Name: "id"},
	"b": {Name: "t.name", IsNULLable: true},
	"c": {Name: `u."age"`, ConvertValue: func(v any) (any, error) { return v, nil }},
	"d": {Name: "created_at", ConvertValue: func(v any) (any, error) {
		if s, ok := v.(string); ok {
			return nil, fmt.Errorf("cannot convert %q", s)
		}
		return v, nil
	}, IsNULLable: true},
}

// dumpColmap leaves out function values.
func dumpColmaps() string {
	s := simutil.Dump(colmap)
	return s + simutil.Dump(colmapV2)
}

type simFilter struct {
	v2  bool
	c   filter.Constructor
	ops []fop
}

func newSimFilter(v2 bool, ts string) *simFilter {
	f := &simFilter{v2: v2}
	if v2 {
		f.c.InitV2(colmapV2, ts)
	} else {
		f.c.Init(colmap, ts)
	}
	return f
}

var rxParam = regexp.MustCompile(`\$(\d+)`)

// render renders and checks the form of the result.
func render(f *simFilter, count bool, pos int) (string, []interface{}, *simutil.Violation) {
	flt := f.c.Filter()
	if count {
		flt = f.c.CountFilter()
	}
	s, params := flt.ToSQL(pos)
	m := rxParam.FindAllStringSubmatch(s, -1)
	if len(m) != len(params) {
		return s, params, simutil.Violate("placeholders", "%d placeholders for %d arguments: %q %s", len(m), len(params), s, simutil.Dump(params))
	}
	for i, x := range m {
		n, _ := strconv.Atoi(x[1])
		if n != pos+i+1 {
			return s, params, simutil.Violate("placeholders", "placeholder %d of %q at position %d is $%d, want $%d", i, s, pos, n, pos+i+1)
		}
	}
	return s, params, nil
}

func norm(s string) string { return rxParam.ReplaceAllString(s, "$?") }

// wantParams computes the arguments the operations call for, in order.
func wantArgCheck(f *simFilter, params []interface{}) *simutil.Violation {
	var want []string
	var walk func(ops []fop)
	walk = func(ops []fop) {
		for _, o := range ops {
			switch o.kind {
			case 0, 1:
				switch o.val {
				case nil, true, false:
				default:
					want = append(want, simutil.Dump(o.val))
				}
			case 4, 5:
				walk(o.nested)
			case 2, 3, 10: // arguments of these are not predicted here
				want = append(want, "?")
			}
		}
	}
	walk(f.ops)
	// the predictable arguments appear in order
	i := 0
	for _, wv := range want {
		if wv == "?" {
			continue
		}
		for i < len(params) && simutil.Dump(params[i]) != wv {
			i++
		}
		if i == len(params) {
			return simutil.Violate("arguments", "argument %s is missing or out of order in %s", wv, simutil.Dump(params))
		}
		i++
	}
	return nil
}

// runC11: several filters are built in an interleaved order and rendered
// again and again; a caller scribbles over rendered argument lists. Reference:
// a twin built alone from the same operations and rendered once.
func runC11(w *simutil.Worker) *simutil.Violation {
	before := dumpColmaps()
	var fs []*simFilter
	for n := rt.Range(1, 3); n > 0; n-- {
		fs = append(fs, newSimFilter(rt.Bool(), rt.Pick([]string{"ts", ""})))
	}
	ts := map[*simFilter]string{}
	for _, f := range fs {
		ts[f] = "ts"
	}
	// (the text search column is part of the filter's construction)
	for i, f := range fs {
		t := rt.Pick([]string{"ts", ""})
		ts[f] = t
		nf := newSimFilter(f.v2, t)
		ts[nf] = t
		fs[i] = nf
	}
	sample = ""
	var held []struct {
		f *simFilter
		s string
		p []interface{}
		d string
	}
	// filters taken early and rendered late
	var early []struct {
		f     *simFilter
		flt   gosql.Filter
		count bool
		n     int
	}
	for step := rt.Range(2, 14); step > 0; step-- {
		f := fs[rt.Draw(len(fs))]
		if len(early) < 4 && rt.Chance(150) {
			e := early
			count := rt.Bool()
			flt := f.c.Filter()
			if count {
				flt = f.c.CountFilter()
			}
			early = append(e, struct {
				f     *simFilter
				flt   gosql.Filter
				count bool
				n     int
			}{f, flt, count, len(f.ops)})
			rt.Hit("filter.taken")
		}
		if len(early) > 0 && rt.Chance(150) {
			e := early[rt.Draw(len(early))]
			pos := rt.Draw(10)
			s, params := e.flt.ToSQL(pos)
			got := fmt.Sprintf("%q %s", s, simutil.Dump(params))
			var want []string
			for _, n := range []int{len(e.f.ops), e.n} {
				twin := newSimFilter(e.f.v2, ts[e.f])
				applyFops(&twin.c, e.f.ops[:n])
				s, params, v := render(twin, e.count, pos)
				if v != nil {
					return v
				}
				want = append(want, fmt.Sprintf("%q %s", s, simutil.Dump(params)))
			}
			w.Evals++
			rt.Hit("filter.late")
			if got != want[0] && got != want[1] {
				return simutil.Violate("late", "a filter (count %v) taken after %d of %d operations renders %s\na twin with all of them renders %s\nand one with the first ones %s", e.count, e.n, len(e.f.ops), got, want[0], want[1])
			}
		}
		if rt.Weighted(3, 2) == 0 {
			op := drawFop(0)
			errs := applyFops(&f.c, []fop{op})
			f.ops = append(f.ops, op)
			rt.Hit("filter.op")
			rt.Observe(uint64(op.kind))
			rt.Logf("op %s -> %v", simutil.Dump(op), errs)
			continue
		}
		w.Evals++
		count := rt.Draw(3) == 2
		pos := 0
		switch rt.Draw(4) {
		case 1:
			pos = rt.Draw(10)
		case 2:
			pos = rt.Draw(2000)
		case 3:
			pos = 60000 + rt.Draw(5000)
		}
		s, params, v := render(f, count, pos)
		rt.Hit("filter.render")
		rt.Observe(uint64(1000 + len(params)))
		rt.Logf("render count=%v pos=%d -> %q %s", count, pos, s, simutil.Dump(params))
		if len(sample) < 300 {
			sample += fmt.Sprintf("render(count=%v,pos=%d)=%q %s; ", count, pos, s, simutil.Dump(params))
		}
		if v != nil {
			return v
		}
		twin := newSimFilter(f.v2, ts[f])
		applyFops(&twin.c, f.ops)
		s2, params2, v := render(twin, count, pos)
		if v != nil {
			return v
		}
		if s != s2 || simutil.Dump(params) != simutil.Dump(params2) {
			return simutil.Violate("rendering", "a filter used together with others renders %q %s\nits twin built alone renders %q %s", s, simutil.Dump(params), s2, simutil.Dump(params2))
		}
		// rendering again, elsewhere, gives the same clauses
		s3, params3, v := render(f, count, pos+rt.Draw(3))
		if v != nil {
			return v
		}
		if norm(s3) != norm(s) || simutil.Dump(params3) != simutil.Dump(params2) {
			return simutil.Violate("rendering", "rendered as %q %s, then as %q %s", s, simutil.Dump(params2), s3, simutil.Dump(params3))
		}
		if v := wantArgCheck(f, params2); v != nil {
			return v
		}
		if rt.Draw(2) == 1 {
			// the caller owns the list it got
			for i := range params {
				params[i] = "scribble"
			}
			params = append(params, "more", "and more")
			_ = append(params3[:0], "x", "y", "z")
			rt.Hit("filter.scribble")
		} else {
			held = append(held, struct {
				f *simFilter
				s string
				p []interface{}
				d string
			}{f, s, params, simutil.Dump(params)})
		}
		for _, h := range held {
			if d := simutil.Dump(h.p); d != h.d {
				return simutil.Violate("held", "the arguments rendered with %q were %s and became %s", h.s, h.d, d)
			}
		}
	}
	if after := dumpColmaps(); after != before {
		return simutil.Violate("colmap", "a shared column map changed: %s\n  to %s", before, after)
	}
	return nil
}
