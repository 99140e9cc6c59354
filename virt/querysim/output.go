package main

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql/zzsim/qspec"
	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simdb"
)

type outCheck struct {
	op         *op
	desc       string
	st         *simdb.Stmt
	r          *ref
	p          *plan
	ok         bool // success is expected
	fired      string
	why        string
	outRec     *qspec.Rec
	outF       reflect.Value
	recT       reflect.Type
	prior      reflect.Value
	priorCanon []string
	oneBefore  string
	oneScans   int
	inPlace    bool
	batch      bool
}

func without(all, some []*qspec.Leaf) []*qspec.Leaf {
	var out []*qspec.Leaf
	for _, l := range all {
		found := false
		for _, m := range some {
			found = found || l == m
		}
		if !found {
			out = append(out, l)
		}
	}
	return out
}

// scalarPrint describes a served row, and a delivered record, by the values
// of their scalar columns in no particular order; it identifies rows without
// knowing which column goes where.
func scalarPrint(vals []string) string {
	for i, v := range vals {
		if v == "NULL" || v == `""` || v == "0" || v == "false" {
			vals[i] = "-"
		}
	}
	return strings.Join(sorted(vals), " ")
}

func servedPrint(row []driver.Value, types []string) string {
	var vals []string
	for i, v := range row {
		switch types[i] {
		case "INT2", "INT4", "INT8", "TEXT", "VARCHAR", "BOOL", "FLOAT4", "FLOAT8", "TIMESTAMP", "TIMESTAMPTZ", "UUID", "BYTEA":
		default:
			continue
		}
		switch x := v.(type) {
		case nil:
			vals = append(vals, "NULL")
		case int64:
			vals = append(vals, strconv.FormatInt(x, 10))
		case float64:
			vals = append(vals, strconv.FormatFloat(x, 'g', -1, 64))
		case bool:
			vals = append(vals, strconv.FormatBool(x))
		case time.Time:
			vals = append(vals, strconv.FormatInt(x.UnixMicro(), 10))
		case []byte:
			vals = append(vals, strconv.Quote(string(x)))
		case string:
			vals = append(vals, strconv.Quote(x))
		}
	}
	return scalarPrint(vals)
}

func recPrint(rec reflect.Value, leaves []*qspec.Leaf) string {
	var vals []string
	for _, l := range leaves {
		switch {
		case strings.HasSuffix(l.CT, "[]"), l.CT == "jsonb", l.CT == "numeric", l.CT == "date", l.CT == `"Mood"`:
			continue
		}
		v, ok := field(rec, l.Path, false)
		if !ok {
			vals = append(vals, "NULL")
			continue
		}
		vals = append(vals, canonGo(v, l.CT))
	}
	return scalarPrint(vals)
}

func (s *state) checkOutput(c *outCheck) {
	o, q, r := c.op, c.op.query, c.r
	out := q.Out()
	rest := without(c.outRec.Leaves, r.leaves)
	var afters, iters []event
	for _, e := range o.events {
		if e.kind == "after" {
			afters = append(afters, e)
		} else {
			iters = append(iters, e)
		}
	}
	info := func() string {
		return fmt.Sprintf("fault %s\nstatement: %s\ndeclared: %s", c.p.kind, stmtText(c.st), strings.Join(r.sql, ";\n"))
	}
	served := 0
	if c.st != nil {
		served = c.st.Served
	}
	keep := func(what string, v reflect.Value) {
		if len(s.held) < 200 {
			leaves := c.outRec.Leaves
			s.held = append(s.held, held{what, func() string { return canonRec(v, leaves) }, canonRec(v, leaves)})
		}
	}

	if out.Form == "one" {
		if !c.ok {
			if len(afters) > 1 || len(afters) == 1 && c.fired != "afterpanic" && !(c.st != nil && c.st.CloseFailed) {
				s.fail("C03", "after-on-failure", "%s: %s, and AfterScan runs %d times", c.desc, c.why, len(afters))
			}
			return
		}
		v := c.outF
		if out.Ptr {
			if v.IsNil() {
				s.fail("C03 C04", "output-nil", "%s: the record is nil although a row was returned; %s", c.desc, info())
				return
			}
			v = v.Elem()
		}
		got := canonRec(v, r.leaves)
		want := r.want(c.recT)
		found := false
		for i, x := range want {
			found = found || x == got && (i == 0 || r.loose)
		}
		if !found {
			s.fail("C04 C03", "output", "%s: the record is %s, but should be %s\n%s", c.desc, got, list(want), info())
			return
		}
		if c.inPlace {
			if strings.Contains(c.oneBefore, "") && len(rest) > 0 {
				// what is not returned stays as it was
				for _, l := range rest {
					f, _ := field(v, l.Path, false)
					if x := l.Col + "=" + canonGo(f, l.CT) + " "; !strings.Contains(" "+c.oneBefore, " "+x) {
						s.fail("C04", "output-other", "%s: the field of column %s, which is not returned, changed to %s (record before: %s)", c.desc, l.Col, x, c.oneBefore)
						return
					}
				}
			}
		}
		s.checkAfterOne(c, afters, v)
		rt.Hit("deliver.one")
		if out.Ptr {
			keep(c.desc+": the record", v)
		}
		return
	}

	// rows of a list
	var got []reflect.Value
	var gotCanon []string
	var gotScans []int
	switch out.Form {
	case "slice":
		n0 := c.prior.Len()
		if c.inPlace {
			s.checkInPlace(c, afters, info)
			return
		}
		if c.outF.Len() < n0 {
			s.fail("C03", "prior-lost", "%s: the slice held %d records and now holds %d", c.desc, n0, c.outF.Len())
			return
		}
		for i := 0; i < n0; i++ {
			e := c.outF.Index(i)
			if out.Ptr && e.Pointer() != c.prior.Index(i).Pointer() {
				s.fail("C03", "prior-changed", "%s: record %d that the slice already held was replaced", c.desc, i)
				return
			}
			if x := canonRec(deref(e), c.outRec.Leaves) + fmt.Sprint(scans(deref(e))); x != c.priorCanon[i] {
				s.fail("C03", "prior-changed", "%s: record %d that the slice already held was %s and is %s", c.desc, i, c.priorCanon[i], x)
				return
			}
		}
		for i := n0; i < c.outF.Len(); i++ {
			e := c.outF.Index(i)
			if out.Ptr && e.IsNil() {
				s.fail("C03", "output-nil", "%s: record %d is nil", c.desc, i)
				return
			}
			got = append(got, deref(e))
			gotScans = append(gotScans, scans(deref(e)))
		}
	default:
		for i, e := range iters {
			v := reflect.ValueOf(e.ptr).Elem()
			got = append(got, v)
			gotScans = append(gotScans, e.scans)
			if now := canonRec(v, c.outRec.Leaves); now != e.canon {
				s.fail("C03", "changed", "%s: record %d was %s when the iterator got it and is %s after the method ended", c.desc, i, e.canon, now)
				return
			}
		}
	}
	for i, v := range got {
		gotCanon = append(gotCanon, canonRec(v, r.leaves))
		for j := 0; j < i; j++ {
			if v.Addr().Pointer() == got[j].Addr().Pointer() && v.Type().Size() > 0 {
				s.fail("C03", "shared", "%s: records %d and %d are the same object", c.desc, j, i)
				return
			}
		}
		if out.Form == "slice" && out.Ptr {
			for j := 0; j < c.prior.Len(); j++ {
				if c.prior.Index(j).Pointer() == v.Addr().Pointer() {
					s.fail("C03", "shared", "%s: record %d is the object that the slice already held at %d", c.desc, i, j)
					return
				}
			}
		}
	}
	for i, v := range got {
		// fields that are not read keep their zero value
		for _, l := range rest {
			if f, ok := field(v, l.Path, false); ok && !f.IsZero() {
				s.fail("C04", "output-other", "%s: record %d has a value in the field of column %s, which is not read", c.desc, i, l.Col)
				return
			}
		}
	}

	// in the order in which the rows came, and none but those
	if c.st != nil && c.st.Res != nil {
		if len(got) > served {
			s.fail("C03", "too-many", "%s: %d records were delivered, but only %d rows were served; %s", c.desc, len(got), served, info())
			return
		}
		for i, v := range got {
			if c.p.kind == "corrupt" {
				break
			}
			a, b := recPrint(v, r.leaves), servedPrint(c.st.Res.Rows[i], c.st.Res.Types)
			if a != b {
				// is it a matter of order or of contents?
				var all, gotAll []string
				for j := range got {
					gotAll = append(gotAll, recPrint(got[j], r.leaves))
				}
				for j := 0; j < served; j++ {
					all = append(all, servedPrint(c.st.Res.Rows[j], c.st.Res.Types))
				}
				if !c.ok || same(sorted(all), sorted(gotAll)) {
					s.fail("C03", "order", "%s: record %d is {%s}, but row %d of the result is {%s}; %s", c.desc, i, a, i, b, info())
				} else {
					s.fail("C03 C04", "content", "%s: record %d is {%s}, but row %d of the result is {%s}; %s", c.desc, i, a, i, b, info())
				}
				return
			}
		}
	} else if len(got) > 0 {
		s.fail("C03", "too-many", "%s: %d records were delivered without a result; %s", c.desc, len(got), info())
		return
	}

	if c.ok {
		want := r.want(c.recT)
		a, b := gotCanon, want
		if !r.ordered {
			a, b = sorted(a), sorted(b)
		}
		if len(got) != len(want) {
			props := "C03"
			if c.st == nil || c.st.Res == nil || len(c.st.Res.Rows) != len(want) {
				props = "C04"
				if c.batch {
					props += " C07"
				}
			}
			s.fail(props, "count", "%s: %d records were delivered instead of %d; %s", c.desc, len(got), len(want), info())
			return
		}
		if !same(a, b) {
			props := "C04"
			if same(sorted(gotCanon), sorted(want)) {
				props = "C03 C04"
			} else if c.batch {
				props += " C07"
			}
			s.fail(props, "output", "%s: the records are %s\nbut should be %s\n%s", c.desc, list(a), list(b), info())
			return
		}
		rt.Hit("deliver.list")
		if len(got) > 1 {
			rt.Hit("deliver.many")
		}
		if out.Form == "slice" && c.prior.Len() > 0 && len(got) > 0 {
			rt.Hit("deliver.appended")
		}
	} else {
		// how far a failed execution got
		limit := served
		switch c.fired {
		case "iter", "iterpanic", "canceliter":
			limit = c.p.at + 1
		case "afterpanic":
			limit = c.p.at
		}
		if c.st != nil && c.st.Fault == "corrupt" {
			limit = served - 1
		}
		if len(got) > limit {
			s.fail("C03", "after-failure", "%s: %s, but %d records were delivered instead of at most %d; %s", c.desc, c.why+c.fired, len(got), limit, info())
			return
		}
		if len(got) > 0 {
			rt.Hit("deliver.prefix")
		}
	}

	// AfterScan: once per record, when its fields are set, before it is handed over
	if c.outRec.AfterScan {
		max := len(got)
		if !c.ok {
			max = served
		}
		if len(afters) < len(got) || len(afters) > max {
			s.fail("C03", "afterscan-count", "%s: AfterScan ran %d times for %d records; %s", c.desc, len(afters), len(got), info())
			return
		}
		for i := range got {
			if gotScans[i] != 1 {
				s.fail("C03", "afterscan-record", "%s: AfterScan ran %d times on record %d", c.desc, gotScans[i], i)
				return
			}
			if x := canonRec(got[i], c.outRec.Leaves); afters[i].canon != x {
				s.fail("C03", "afterscan-fields", "%s: AfterScan saw record %d as %s, but it is %s", c.desc, i, afters[i].canon, x)
				return
			}
		}
		if len(iters) > 0 {
			n := 0
			for _, e := range o.events {
				if e.kind == "after" {
					n++
				} else {
					n--
				}
				if n < 0 || n > 1 {
					s.fail("C03", "afterscan-order", "%s: AfterScan and the iterator do not alternate", c.desc)
					return
				}
			}
		}
		rt.Hit("deliver.afterscan")
	} else if len(afters) > 0 {
		s.fail("C03", "afterscan-count", "%s: AfterScan ran", c.desc)
		return
	}
	for i, v := range got {
		if out.Form != "slice" || out.Ptr {
			keep(fmt.Sprintf("%s: record %d", c.desc, i), v)
		}
	}
}

func (s *state) checkAfterOne(c *outCheck, afters []event, v reflect.Value) {
	if !c.outRec.AfterScan {
		if len(afters) > 0 {
			s.fail("C03", "afterscan-count", "%s: AfterScan ran", c.desc)
		}
		return
	}
	if len(afters) != 1 {
		s.fail("C03", "afterscan-count", "%s: AfterScan ran %d times for one record", c.desc, len(afters))
		return
	}
	if n := scans(v); n != c.oneScans+1 && n != 1 {
		s.fail("C03", "afterscan-record", "%s: AfterScan ran %d times on the record (%d before)", c.desc, n, c.oneScans)
		return
	}
	if x := canonRec(v, c.outRec.Leaves); afters[0].canon != x {
		s.fail("C03", "afterscan-fields", "%s: AfterScan saw the record as %s, but it is %s", c.desc, afters[0].canon, x)
		return
	}
	rt.Hit("deliver.afterscan")
}

// checkInPlace checks values that are returned into the records of a batch.
func (s *state) checkInPlace(c *outCheck, afters []event, info func() string) {
	q, r := c.op.query, c.r
	if c.outF.Len() != c.prior.Len() {
		s.fail("C07 C03", "batch-length", "%s: the batch had %d records and has %d after the execution", c.desc, c.prior.Len(), c.outF.Len())
		return
	}
	ptr := q.Out().Ptr
	for i := 0; i < c.outF.Len(); i++ {
		if ptr && c.outF.Index(i).Pointer() != c.prior.Index(i).Pointer() {
			s.fail("C07 C03", "batch-replaced", "%s: record %d of the batch was replaced", c.desc, i)
			return
		}
	}
	if !c.ok {
		return
	}
	want := r.want(c.recT)
	if q.Kind == "update" && len(r.leaves) > 0 && len(want) > 0 && len(afters) == 0 && c.untouched() {
		stale := c.outRec.AfterScan
		for i, w := range want {
			stale = stale || len(want) != c.outF.Len() || canonRec(deref(c.outF.Index(i)), r.leaves) != w
		}
		if stale {
			s.fail("C07", "update-return", "%s: %d rows were returned, and the records of the batch are what they were\n%s", c.desc, len(want), info())
			return
		}
	}
	// With a conflict clause a record may have no row of its own.
	if len(want) != c.outF.Len() {
		rt.Hit("batch.rows.missing")
		s.checkMissing(c, want, info)
		return
	}
	for i, w := range want {
		rec := deref(c.outF.Index(i))
		if q.Kind == "insert" {
			if got := canonRec(rec, r.leaves); got != w {
				s.fail("C07", "batch-output", "%s: record %d of the batch is %s, but %s was returned for it\n%s", c.desc, i, got, w, info())
				return
			}
		}
	}
	if q.Kind == "update" {
		var got []string
		for i := range want {
			got = append(got, canonRec(deref(c.outF.Index(i)), r.leaves))
		}
		// the rows of an update come in any order, so a row is found by its key
		if !same(got, want) {
			s.fail("C07", "batch-output", "%s: the records of the batch are %s, but these were returned for them: %s\n%s", c.desc, list(got), list(want), info())
			return
		}
	}
	if c.outRec.AfterScan {
		if q.Kind == "update" && len(afters) == 0 && len(want) > 0 {
			s.fail("C07", "batch-output", "%s: the %d returned rows were not scanned", c.desc, len(want))
			return
		}
		for i := range want {
			if n := scans(deref(c.outF.Index(i))); n < 1 {
				s.fail("C03", "afterscan-record", "%s: AfterScan did not run on record %d of the batch", c.desc, i)
				return
			}
		}
		if len(afters) != len(want) {
			s.fail("C03", "afterscan-count", "%s: AfterScan ran %d times for %d rows", c.desc, len(afters), len(want))
			return
		}
		rt.Hit("deliver.afterscan")
	}
	rt.Hit("deliver.batch")
}

// untouched tells whether the records are what they were.
func (c *outCheck) untouched() bool {
	for i := 0; i < c.outF.Len(); i++ {
		rec := deref(c.outF.Index(i))
		if canonRec(rec, c.outRec.Leaves)+fmt.Sprint(scans(rec)) != c.priorCanon[i] {
			return false
		}
	}
	return true
}

// shifted tells whether the returned rows are in the first records of the
// batch, in their order, and the others are what they were.
func (c *outCheck) shifted(want []string) bool {
	for i := 0; i < c.outF.Len(); i++ {
		rec := deref(c.outF.Index(i))
		if i < len(want) {
			if canonRec(rec, c.r.leaves) != want[i] {
				return false
			}
		} else if canonRec(rec, c.outRec.Leaves)+fmt.Sprint(scans(rec)) != c.priorCanon[i] {
			return false
		}
	}
	return true
}

// checkMissing checks a batch of which only some records were written: each
// returned row has to be in the record it belongs to, by key.
func (s *state) checkMissing(c *outCheck, want []string, info func() string) {
	q, r := c.op.query, c.r
	var keyL []*qspec.Leaf
	for _, l := range r.leaves {
		if qspec.Contains(spec.Tables[q.Table].PK, l.Col) || l.Col == "name" {
			keyL = append(keyL, l)
		}
	}
	// records are identified by what they were before the execution
	for i := 0; i < c.outF.Len(); i++ {
		rec := deref(c.outF.Index(i))
		for _, l := range keyL {
			if l.Col == "id" {
				continue
			}
			f, _ := field(rec, l.Path, false)
			x := l.Col + "=" + canonGo(f, l.CT) + " "
			if !strings.Contains(" "+c.priorCanon[i], " "+x) {
				class := "batch-output"
				if q.Kind == "insert" && q.Conflict != nil && q.Conflict.Update == nil && c.shifted(want) {
					class = "ignore-return"
				}
				s.fail("C07", class, "%s: record %d of the batch was %s and now has %s, the value of another record\n%s", c.desc, i, c.priorCanon[i], x, info())
				return
			}
		}
	}
}
