package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/zzsim/qgen/qrt"
	"github.com/frk/gosql/zzsim/qspec"
	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simdb"
	"github.com/lib/pq"
)

// Ctx is a context whose cancellation the simulator decides. Without a done
// channel only whoever looks at it learns of the cancellation, which makes
// every instant of it repeatable.
type Ctx struct {
	context.Context
	token int
	err   error
	done  chan struct{}
}

type tokenKey struct{}

func newCtx(token int, done bool) *Ctx {
	c := &Ctx{Context: context.Background(), token: token}
	if done {
		c.done = make(chan struct{})
	}
	return c
}

func (c *Ctx) Done() <-chan struct{} {
	if c.done == nil {
		return nil
	}
	return c.done
}
func (c *Ctx) Err() error { return c.err }
func (c *Ctx) Value(k interface{}) interface{} {
	if _, ok := k.(tokenKey); ok {
		return c.token
	}
	return nil
}
func (c *Ctx) cancel() {
	if c.err == nil {
		c.err = context.Canceled
		if c.done != nil {
			close(c.done)
		}
	}
}

type op struct {
	*query
	e      *qrt.Entry
	val    interface{}
	events []event
	hand   []error // errors the handler was given
	infos  []gosql.ErrorInfo
	handR  error // what the handler returned last
	handM  int
	fText  func(pos int) (string, []interface{})
	fRef   string

	badClass, badText string // what is wrong with the filter
}

func drawSQL(table string, c *qspec.Col) string {
	if c.Nullable && rt.Chance(300) {
		return "NULL"
	}
	t := map[string]reflect.Type{"text": reflect.TypeOf(""), "int4": reflect.TypeOf(0), "int8": reflect.TypeOf(0), "bool": reflect.TypeOf(true),
		"float8": reflect.TypeOf(0.0), "text[]": reflect.TypeOf([]string{}), "int4[]": reflect.TypeOf([]int{}), "jsonb": reflect.TypeOf(qrt.Doc{}),
		"timestamptz": reflect.TypeOf(time.Time{}), "uuid": reflect.TypeOf(""), "bytea": reflect.TypeOf([]byte{}),
		`"Mood"`: reflect.TypeOf(""), "varchar": reflect.TypeOf(""), "numeric": reflect.TypeOf(0.0), "date": reflect.TypeOf(time.Time{}), "timestamp": reflect.TypeOf(time.Time{}),
		"int2": reflect.TypeOf(0), "float4": reflect.TypeOf(0.0)}[c.CT]
	v := reflect.New(t).Elem()
	drawGo(v, table, c.Name, c.CT)
	if c.Name == "n" && v.Int() > 999 {
		v.SetInt(3)
	}
	if c.Name == "mood" && (v.String() == "" || v.String() == "happy") {
		v.SetString("sad")
	}
	return lit(v, c.CT, false)
}

// outElem is the type of the records that the output holds.
func recType(f reflect.Value, o *qspec.Out) reflect.Type {
	t := f.Type()
	switch o.Form {
	case "slice":
		t = t.Elem()
	case "iter":
		t = t.In(0)
	case "iface":
		t = t.Method(0).Type.In(0)
	}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// newOp draws a query value.
func (s *state) newOp() *op {
	q := pickQuery(s.w.Property)
	o := &op{e: qrt.Entries[q.Key()]}
	o.val = o.e.New()
	o.query = &query{q, reflect.ValueOf(o.val).Elem()}
	o.fill()
	return o
}

// fill draws the inputs.
func (o *op) fill() {
	q := o.query
	if q.Kind == "insert" || q.Kind == "update" {
		f := q.rv.FieldByName(q.Rel.Field)
		rec := spec.Recs[q.Rel.Rec]
		t := recType(f, q.Rel)
		one := func() reflect.Value {
			p := reflect.New(t)
			fillRec(p.Elem(), rec, q.Table)
			return p
		}
		set := func(dst, p reflect.Value) {
			if dst.Kind() == reflect.Ptr {
				dst.Set(p)
			} else {
				dst.Set(p.Elem())
			}
		}
		if q.Rel.Form == "slice" {
			n := rt.Draw(5)
			if n == 0 && rt.Chance(850) {
				n = 1
			}
			large := rt.Chance(20)
			if large {
				n = rt.Range(6, 70)
				if w := len(q.written()); rt.Chance(150) && w > 2 {
					n = 1024/w + rt.Range(1, 40) // more than a thousand values
				}
			}
			sl := reflect.MakeSlice(f.Type(), 0, n)
			var recs []reflect.Value
			for i := 0; i < n; i++ {
				p := one()
				if large {
					q.apart(p.Elem(), i)
				}
				recs = append(recs, p)
			}
			if q.Kind == "update" {
				recs = q.distinctKeys(recs)
			}
			for _, p := range recs {
				e := reflect.New(f.Type().Elem()).Elem()
				set(e, p)
				sl = reflect.Append(sl, e)
			}
			f.Set(sl)
		} else {
			set(f, one())
		}
	}
	if q.Where != nil {
		fillConds(q.Where, q.rv.FieldByName(q.WhereField), q.Table)
	}
	for _, n := range []string{q.LimitField, q.OffsetField} {
		if n != "" {
			q.rv.FieldByName(n).SetInt(int64(rt.Draw(4)))
		}
	}
	switch {
	case q.FT != nil && rt.Chance(800):
		o.drawGenFilter()
	case q.Filter != "":
		o.drawFilter()
	}
}

// apart gives a record of a large batch values of its own in the columns that
// are unique, and none that violates a constraint. Some have the key of a row.
func (q *query) apart(rec reflect.Value, i int) {
	keep := rt.Chance(150)
	for _, l := range spec.Recs[q.Rel.Rec].Leaves {
		v, _ := field(rec, l.Path, true)
		pk := qspec.Contains(spec.Tables[q.Table].PK, l.Col)
		switch {
		case pk && keep && (q.Kind == "update" || q.Conflict != nil):
		case pk && v.CanInt():
			v.SetInt(int64(100 + i))
		case pk && v.Kind() == reflect.String:
			v.SetString(fmt.Sprintf("b%d", i))
		case l.Col == "name" && v.Kind() == reflect.String:
			v.SetString(fmt.Sprintf("nm%d", 20+i))
		case l.Col == "Code":
			v.SetString(fmt.Sprintf("cd%d", 20+i))
		case l.Col == "n" && v.CanInt() && v.Int() == 1000:
			v.SetInt(3)
		}
	}
}

// distinctKeys drops records with the key of an earlier one, and gives
// the others names that cannot clash with each other: what a batch with such
// records does depends on the order in which the database visits the rows.
func (q *query) distinctKeys(recs []reflect.Value) []reflect.Value {
	seen := map[string]bool{}
	var out []reflect.Value
	ids := map[string]bool{}
	for i, p := range recs {
		key := ""
		for _, l := range spec.Recs[q.Rel.Rec].Leaves {
			v, _ := field(p.Elem(), l.Path, true)
			if qspec.Contains(spec.Tables[q.Table].PK, l.Col) {
				key += canonGo(v, l.CT) + "|"
			}
			if q.Table == "acct" && l.Col == "name" {
				v.SetString(fmt.Sprintf("nm%d", 20+i))
			}
			if l.Col == "Code" {
				v.SetString(fmt.Sprintf("cd%d", 20+i))
			}
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		ids[key] = true
		out = append(out, p)
	}
	if q.Table == "acct" && rt.Chance(150) {
		// a clash with a row that is not part of the batch
		k := rt.Range(1, 5)
		if !ids[fmt.Sprintf("%d|", k)] {
			for _, l := range spec.Recs[q.Rel.Rec].Leaves {
				if l.Col == "name" && len(out) > 0 {
					v, _ := field(out[rt.Draw(len(out))].Elem(), l.Path, true)
					v.SetString(fmt.Sprintf("nm%d", k))
				}
			}
		}
	}
	return out
}

func fillConds(conds []*qspec.Cond, v reflect.Value, table string) {
	for _, c := range conds {
		col := ""
		if i := strings.IndexByte(c.L, '"'); i >= 0 {
			col = c.L[i+1:]
			col = col[:strings.IndexByte(col, '"')]
		}
		switch c.Kind {
		case "field", "func":
			f := v.FieldByName(c.Field)
			switch {
			case strings.Contains(c.L, "~"):
				f.SetString(rt.Pick(patterns))
			case strings.Contains(c.L, "LIKE"):
				f.SetString(rt.Pick(likes))
			default:
				drawGo(f, table, col, c.CT)
			}
		case "in", "any":
			f := v.FieldByName(c.Field)
			n := rt.Range(1, 4)
			if rt.Chance(60) {
				n = 0
			} else if rt.Chance(20) {
				n = rt.Range(9, 130)
			}
			sl := reflect.MakeSlice(f.Type(), n, n)
			for i := 0; i < n; i++ {
				drawGo(sl.Index(i), table, col, strings.TrimSuffix(c.CT, "[]"))
			}
			f.Set(sl)
		case "between":
			f := v.FieldByName(c.Field)
			for _, n := range []string{c.X, c.Y} {
				if n != "" {
					drawGo(f.FieldByName(n), table, col, c.CT)
				}
			}
		case "nest":
			fillConds(c.Sub, v.FieldByName(c.Field), table)
		}
	}
}

// drawFilter draws a filter: the text it renders for a position, and the same
// with literals.
func (o *op) drawFilter() {
	q := o.query
	t := spec.Tables[q.Table]
	type pred struct {
		col, op, ct string
		v           reflect.Value
	}
	var preds []pred
	for n := rt.Draw(4); n > 0; n-- {
		c := t.Cols[rt.Draw(len(t.Cols))]
		var v reflect.Value
		switch c.CT {
		case "int4", "int8":
			v = reflect.New(reflect.TypeOf(int64(0))).Elem()
		case "text":
			v = reflect.New(reflect.TypeOf("")).Elem()
		case "bool":
			v = reflect.New(reflect.TypeOf(true)).Elem()
		default:
			continue
		}
		drawGo(v, q.Table, c.Name, c.CT)
		op := rt.Pick([]string{"=", "<>", "<=", ">"})
		preds = append(preds, pred{c.Name, op, c.CT, v})
	}
	tail := ""
	limited := q.LimitField != "" || q.OffsetField != "" || q.LimitDir > 0 || q.OffsetDir > 0
	if q.Kind == "select" && q.Order == "" && len(t.PK) > 0 && (limited || rt.Chance(250)) {
		var by []string
		for _, k := range t.PK {
			by = append(by, q.Qual(k)+" DESC")
		}
		tail = " ORDER BY " + strings.Join(by, ", ")
	}
	limit := int64(0)
	if tail != "" && !limited && rt.Bool() {
		limit = int64(rt.Range(1, 3))
	}
	render := func(pos int, literals bool) (string, []interface{}) {
		var args []interface{}
		var b strings.Builder
		val := func(v reflect.Value, ct string) string {
			if literals {
				return lit(v, ct, false)
			}
			pos++
			args = append(args, v.Interface())
			return "$" + strconv.Itoa(pos)
		}
		for i, p := range preds {
			if i == 0 {
				b.WriteString(" WHERE ")
			} else {
				b.WriteString(" AND ")
			}
			b.WriteString(q.Qual(p.col) + " " + p.op + " " + val(p.v, p.ct))
		}
		b.WriteString(tail)
		// a method that returns a single record reads the first row only: the
		// reference has its own LIMIT 1
		if limit > 0 && !(literals && q.Rel.Form == "one") {
			b.WriteString(" LIMIT " + val(reflect.ValueOf(limit), "int8"))
		}
		return b.String(), args
	}
	o.fRef, _ = render(0, true)
	o.fText = func(pos int) (string, []interface{}) { return render(pos, false) }
}

// setHandler puts a handler into a field of any of the handler types.
func setHandler(f reflect.Value, handle func(error) error, note func(*gosql.ErrorInfo)) {
	eh := qrt.EH{F: handle}
	eih := &qrt.EIH{F: func(i *gosql.ErrorInfo) error {
		note(i)
		return handle(i.Error)
	}}
	for _, h := range []interface{}{eh, &eh, qrt.PEH{EH: eh}, &qrt.PEH{EH: eh}, eih, *eih, qrt.PEIH{EIH: eih}, &qrt.PEIH{EIH: eih}} {
		if v := reflect.ValueOf(h); v.Type().AssignableTo(f.Type()) {
			f.Set(v)
			return
		}
	}
	panic("no handler for " + f.Type().String())
}

type plan struct {
	kind   string
	at     int
	iterE  error
	pan    string
	cancel *Ctx
}

// step executes one query.
func (s *state) step(calm, noIdle bool) {
	var o *op
	again := false
	if len(s.past) > 0 && rt.Chance(400) {
		o = s.past[rt.Draw(len(s.past))]
		again = true
		if rt.Chance(400) {
			o.fill()
		}
	} else {
		o = s.newOp()
		s.past = append(s.past, o)
	}
	q := o.query
	if o.badClass != "" {
		s.fail("C04", o.badClass, "%s", o.badText)
		return
	}
	o.events, o.hand, o.infos, o.handR = nil, nil, nil, nil
	out := q.Out()
	single := out != nil && (out.Form == "one" || out.Form == "count" || out.Form == "exists" || out.Form == "notexists")
	multi := out != nil && !single
	hasCtx := q.CtxArg || q.CtxField != ""
	inPlace := q.Return != nil && (q.Kind == "insert" || q.Kind == "update")

	// context
	var ctx *Ctx
	s.token++
	if hasCtx {
		ctx = newCtx(s.token, rt.Chance(300))
		if q.CtxField != "" {
			q.rv.FieldByName(q.CtxField).Set(reflect.ValueOf(context.Context(ctx)))
		}
	}

	// the records that the result slice already holds
	var prior reflect.Value
	var priorCanon []string
	var outRec *qspec.Rec
	var outF reflect.Value
	var rt0 reflect.Type
	if out != nil && out.Rec != "" {
		outRec = spec.Recs[out.Rec]
		outF = q.rv.FieldByName(out.Field)
		rt0 = recType(outF, out)
		if out.Form == "slice" && !inPlace {
			if !again && rt.Chance(300) {
				for n := rt.Range(1, 2); n > 0; n-- {
					p := reflect.New(rt0)
					fillRec(p.Elem(), outRec, q.Table)
					if out.Ptr {
						outF.Set(reflect.Append(outF, p))
					} else {
						outF.Set(reflect.Append(outF, p.Elem()))
					}
				}
			} else if rt.Chance(200) {
				outF.Set(reflect.Zero(outF.Type()))
			}
		}
		if out.Form == "slice" {
			prior = reflect.MakeSlice(outF.Type(), outF.Len(), outF.Len())
			reflect.Copy(prior, outF)
			for i := 0; i < outF.Len(); i++ {
				priorCanon = append(priorCanon, canonRec(deref(outF.Index(i)), outRec.Leaves)+fmt.Sprint(scans(deref(outF.Index(i)))))
			}
		}
	}
	var oneBefore string
	oneScans := -1
	if inPlace && out.Form == "one" {
		oneBefore = canonRec(deref(outF), outRec.Leaves)
		oneScans = scans(deref(outF))
	} else if out != nil && out.Form == "one" && !out.Ptr {
		oneScans = scans(deref(outF))
	} else if out != nil && out.Form == "one" {
		oneScans = 0
	}

	// reference
	pre := dump()
	var r *ref
	aborted := s.tx != nil && s.sim.Aborted
	lost := s.tx != nil && s.sim.Lost
	r = q.reference(o.fRef, pre)
	if aborted {
		r = &ref{code: map[string]bool{"25P02": true}, post: pre, sql: r.sql, leaves: r.leaves}
	}

	// faults
	p := &plan{kind: "none"}
	sp := simdb.Plan{Shuffle: q.Kind != "insert" && !r.ordered && q.Order == "" && !single}
	if !calm && !rt.Chance(400) {
		kinds := []string{"before"}
		add := func(ok bool, k ...string) {
			if ok {
				kinds = append(kinds, k...)
			}
		}
		add(out != nil, "row", "row", "corrupt")
		add(multi, "row", "row", "corrupt")
		add(q.RowsAffected != "", "affected", "affected")
		add(true, "after", "badconn")
		add(noIdle && s.tx == nil, "connect")
		add(multi && (out.Form == "iter" || out.Form == "iface"), "iter", "iter", "iterpanic")
		add(outRec != nil && outRec.AfterScan, "afterpanic")
		add(hasCtx, "cancelled", "cancelbefore")
		add(hasCtx && out != nil, "cancelrow")
		add(hasCtx && multi && (out.Form == "iter" || out.Form == "iface"), "canceliter")
		add(out != nil, "close")
		if s.w.Property == "C06" && hasCtx {
			add(true, "cancelled", "cancelbefore")
			add(out != nil, "cancelrow", "cancelrow")
			add(multi && (out.Form == "iter" || out.Form == "iface"), "canceliter", "canceliter")
		}
		p.kind = rt.Pick(kinds)
	}
	fe := func(name string) error {
		switch rt.Draw(4) {
		case 0:
			return &simdb.Err{Name: fmt.Sprintf("%s %d", name, s.token)}
		case 1:
			return io.ErrUnexpectedEOF
		case 2:
			return fmt.Errorf("wrapped %d: %w", s.token, sql.ErrConnDone)
		}
		return &pq.Error{Severity: "FATAL", Code: "57P01", Message: fmt.Sprintf("terminating connection %d", s.token)}
	}
	var want error // the injected failure
	switch p.kind {
	case "before":
		want = fe("before")
		if rt.Chance(100) {
			want = sql.ErrNoRows // no error value is special
		}
		sp.ErrBefore = want
	case "after":
		want = fe("after")
		sp.ErrAfter = want
	case "badconn":
		sp.BadConn = rt.Range(1, 3)
	case "connect":
		want = fe("connect")
		sp.ConnErr = want
	case "row":
		want = fe("row")
		sp.RowErr = want
		if multi {
			sp.RowErrAt = rt.Draw(4)
		}
		sp.RowUndo = rt.Bool()
	case "corrupt":
		sp.Corrupt = 1
		if multi {
			sp.Corrupt = 1 + rt.Draw(4)
		}
		sp.CorruptC = rt.Draw(6)
	case "affected":
		want = fe("affected")
		sp.AffErr = want
	case "close":
		want = fe("close")
		sp.CloseErr = want
	case "iter", "iterpanic", "afterpanic", "canceliter":
		p.at = 0
		if multi {
			p.at = rt.Draw(3)
		}
		want = fe(p.kind)
	case "cancelled":
		ctx.cancel()
		rt.Hit("fault.cancelled")
	case "cancelbefore":
		sp.Before = ctx.cancel
	case "cancelrow":
		if ctx.done != nil {
			ctx.done = nil // its effect would depend on a race
		}
		at := 0
		if multi {
			at = rt.Draw(4)
		}
		sp.AtRow = func(k int) {
			if k == at {
				ctx.cancel()
			}
		}
	}

	// user code
	fired := ""
	waitClosed := func() {
		// database/sql closes the rows when the context is done
		if ctx.done == nil || len(s.sim.Stmts) == 0 || s.sim.Stmts[len(s.sim.Stmts)-1].Ctx.Value(tokenKey{}) != ctx.token {
			return
		}
		end := time.Now().Add(2 * time.Second)
		for s.sim.OpenRows.Load() > 0 && time.Now().Before(end) {
			runtime.Gosched()
		}
	}
	afterN, iterN := 0, 0
	qrt.OnAfterScan = func(rec interface{}) {
		v := reflect.ValueOf(rec).Elem()
		ev := event{kind: "after", ptr: rec, scans: scans(v)}
		if outRec != nil && rt0 == v.Type() {
			ev.canon = canonRec(v, outRec.Leaves)
		}
		o.events = append(o.events, ev)
		afterN++
		if p.kind == "afterpanic" && afterN == p.at+1 {
			fired = "afterpanic"
			rt.Hit("fault.afterpanic")
			panic(want)
		}
	}
	if o.e.SetIter != nil {
		o.e.SetIter(o.val, func(rec interface{}) error {
			v := reflect.ValueOf(rec).Elem()
			o.events = append(o.events, event{kind: "iter", ptr: rec, canon: canonRec(v, outRec.Leaves), scans: scans(v)})
			iterN++
			if iterN == p.at+1 {
				switch p.kind {
				case "iter":
					fired = "iter"
					rt.Hit("fault.iter")
					return want
				case "iterpanic":
					fired = "iterpanic"
					rt.Hit("fault.iterpanic")
					panic(want)
				case "canceliter":
					fired = "canceliter"
					rt.Hit("fault.cancel.iter")
					ctx.cancel()
					waitClosed()
				}
			}
			return nil
		})
	}
	o.handM = rt.Draw(4)
	handle := func(err error) error {
		if err == nil {
			return nil
		}
		o.hand = append(o.hand, err)
		o.handR = err
		switch o.handM {
		case 1:
			o.handR = &simdb.Err{Name: "from the handler"}
		case 2:
			o.handR = nil
		case 3:
			o.handR = fmt.Errorf("handled: %w", err)
		}
		return o.handR
	}
	if q.Handler != "" {
		setHandler(q.rv.FieldByName(q.HandlerField), handle, func(i *gosql.ErrorInfo) { o.infos = append(o.infos, *i) })
	}
	filterPos := -1
	if q.Filter != "" {
		q.rv.FieldByName(q.Filter).Set(reflect.ValueOf(&qrt.Filter{F: func(pos int) (string, []interface{}) {
			filterPos = pos
			return o.fText(pos)
		}}))
	}

	// execute
	s.sim.Plan = sp
	s.sim.Stmts, s.sim.Ctxs = nil, nil
	var conn gosql.Conn = s.db
	if s.tx != nil {
		conn = s.tx
	}
	var mctx context.Context
	if q.CtxArg {
		mctx = ctx
	}
	var err error
	var pan interface{}
	func() {
		defer func() { pan = recover() }()
		err = o.e.Exec(o.val, mctx, conn)
	}()
	qrt.OnAfterScan = nil
	if _, ok := pan.(simdb.Broken); ok {
		panic(pan)
	}

	// what happened
	var st *simdb.Stmt
	if n := len(s.sim.Stmts); n > 0 {
		st = s.sim.Stmts[n-1]
	}
	desc := q.Key() + " (" + q.Sig() + ")"
	if rt.Tracing() {
		via := "the pool"
		if s.tx != nil {
			via = "a transaction"
		}
		rt.Logf("execute %s through %s, fault %s at %d", desc, via, p.kind, p.at)
		for _, x := range r.sql {
			rt.Logf("  declared effect: %s", x)
		}
		for _, x := range s.sim.Stmts {
			var a []string
			for _, v := range x.Args {
				a = append(a, simdb.Arg(v.Value))
			}
			rt.Logf("  statement: %s\n    args %v; applied=%v fault=%q err=%v rows=%d served=%d", x.SQL, a, x.Applied, x.Fault, x.Err, x.RowsN, x.Served)
		}
		rt.Logf("  result: %v, panic %v, %d events, handler given %v", err, pan, len(o.events), o.hand)
	}
	rt.ObserveString(q.Sig())
	rt.ObserveString(p.kind)
	if st != nil {
		rt.ObserveString(st.Fault + fmt.Sprint(st.RowsN, st.Served))
	}
	sample = desc + " under " + p.kind
	rt.Hit("exec." + q.Kind)
	if again {
		rt.Hit("exec.again")
	}
	if s.tx != nil {
		rt.Hit("exec.in.tx")
	}
	if r.code != nil {
		rt.Hit("exec.sqlerror")
	}
	post := dump()

	// C02
	if n := s.sim.OpenRows.Load(); n > 0 {
		s.fail("C02", "rows-open", "%s: %d result sets are open after the method ended (error %v, panic %v, fault %s)", desc, n, err, pan, p.kind)
	}
	if s.sim.OpenStmts > 0 {
		s.fail("C02", "stmt-open", "%s: %d prepared statements are open after the method ended", desc, s.sim.OpenStmts)
	}
	if s.tx == nil && s.db.Stats().InUse > 0 {
		s.fail("C02", "conn-in-use", "%s: a connection is checked out of the pool after the method ended (error %v, panic %v, fault %s)", desc, err, pan, p.kind)
	}
	if s.done() {
		// nothing can be executed through a blocked pool
		return
	}

	// C04: one statement
	if len(s.sim.Stmts) > 1 {
		s.fail("C04", "statements", "%s: %d statements were sent:\n%s\n---\n%s", desc, len(s.sim.Stmts), s.sim.Stmts[0].SQL, s.sim.Stmts[1].SQL)
		return
	}

	// C06: the context
	if hasCtx {
		for _, c := range s.sim.Ctxs {
			if c.Value(tokenKey{}) != ctx.token {
				s.fail("C06", "context", "%s: a database call was made with another context (%v) than that of the query", desc, c)
				return
			}
		}
	}

	// state
	batch := q.Rel.Form == "slice" && (q.Kind == "insert" || q.Kind == "update")
	applied := st != nil && st.Applied
	wantState := pre
	if applied && (r.code == nil || r.either) && !r.anyErr {
		wantState = r.post
	}
	if r.anyErr && r.code == nil && len(r.sql) > 0 && applied {
		wantState = r.post
	}
	props := "C04"
	if batch {
		props += " C07"
	}
	if post != wantState {
		if p.kind == "cancelled" || p.kind == "cancelbefore" {
			props += " C06"
		}
		s.fail(props, "effect", "%s: the tables are not what the declared effect makes of them (applied %v)\nstatement: %s\ndeclared: %s\n%s", desc, applied, stmtText(st), strings.Join(r.sql, ";\n"), diff(pre, wantState, post))
		return
	}

	// which failure has to be reported
	var expect func(error) string // says what is wrong with the error
	var why string
	is := func(w error) func(error) string {
		return func(e error) string {
			if !errors.Is(e, w) {
				return fmt.Sprintf("it should be %q", w)
			}
			return ""
		}
	}
	fault := ""
	if st != nil {
		fault = st.Fault
	}
	switch {
	case fired == "iterpanic" || fired == "afterpanic":
		if pan == nil && err == nil && !(q.Handler != "" && o.handR == nil && len(o.hand) > 0) {
			s.fail("C01", "swallow", "%s: a panic of %s is swallowed and the method reports success", desc, fired)
			return
		}
		rt.Hit("exec.panicked")
	case pan != nil:
		props := "C04 C01"
		if q.Out() != nil {
			props = "C04 C03 C01"
		}
		s.fail(props, "panic", "%s: panic: %v (fault %s)", desc, pan, p.kind)
		return
	case lost:
		why, expect = "the connection of the transaction was lost", func(error) string { return "" }
	case p.kind == "cancelled":
		why, expect = "the context was cancelled before the execution", is(context.Canceled)
	case p.kind == "badconn" && st == nil:
		why, expect = "every connection was bad", is(driver.ErrBadConn)
	case p.kind == "connect" && st == nil:
		why, expect = "connecting failed", is(want)
	case fault == "cancel" || fired == "canceliter":
		why, expect = "the context was cancelled", is(context.Canceled)
	case fault == "before", fault == "after", fault == "row", fault == "affected":
		why, expect = "the driver failed ("+fault+")", is(want)
	case fault == "corrupt":
		why, expect = "a column cannot be converted", func(e error) string {
			if errors.Is(e, sql.ErrNoRows) {
				return "it is the no-rows error"
			}
			return ""
		}
	case fired == "iter":
		why, expect = "the iterator failed", is(want)
	case r.either && st != nil && st.Err == nil:
		rt.Hit("exec.either")
		if st.CloseFailed {
			why, expect = "closing the result failed", is(want)
		}
	case r.anyErr && st != nil && st.Err != nil:
		// a list without elements makes an invalid statement
		rt.Hit("exec.emptylist")
		why, expect = "the statement was refused", is(st.Err)
	case r.anyErr:
		rt.Hit("exec.emptylist")
		if err != nil && !(single && errors.Is(err, sql.ErrNoRows)) {
			return
		}
	case r.code != nil:
		why, expect = "the database refused the statement with SQLSTATE "+keys(r.code), sqlstate(r.code)
	case single && out.Form == "one" && len(r.rows) == 0 && st != nil && st.CloseFailed:
		why, expect = "there was no row, and closing the result failed", func(e error) string {
			if !errors.Is(e, sql.ErrNoRows) && !errors.Is(e, want) {
				return fmt.Sprintf("it should be %q or %q", sql.ErrNoRows, want)
			}
			return ""
		}
	case single && out.Form == "one" && len(r.rows) == 0:
		why, expect = "there was no row", is(sql.ErrNoRows)
		rt.Hit("exec.norows")
	case st != nil && st.CloseFailed:
		why, expect = "closing the result failed", is(want)
	}
	if pan == nil && fired != "iterpanic" && fired != "afterpanic" {
		s.checkError(o, desc, st, err, expect, why, p, r)
	}
	if s.done() {
		return
	}
	ok := expect == nil && fired != "iterpanic" && fired != "afterpanic"
	if ok && !r.anyErr && !applied {
		s.fail("C01 C04", "not-executed", "%s: the method reports success, but no statement was executed", desc)
		return
	}
	if q.Filter != "" && filterPos < 0 && st != nil {
		s.fail("C04", "filter", "%s: the filter was not asked", desc)
		return
	}
	if q.Filter != "" && out == nil && r.code == nil && ok {
		rt.Hit("exec.filter")
	}
	if r.anyErr {
		return
	}
	if ok && q.RowsAffected != "" {
		if got := fmt.Sprint(q.rv.FieldByName(q.RowsAffected).Interface()); got != fmt.Sprint(r.n) {
			s.fail("C04", "affected", "%s: RowsAffected is %s, but %d rows were affected", desc, got, r.n)
		}
		rt.Hit("exec.affected")
	}
	if out == nil || s.done() {
		return
	}
	if out.Rec == "" {
		if ok {
			if got, w := fmt.Sprint(q.rv.FieldByName(out.Field).Interface()), r.scalar(); got != w {
				s.fail("C04", "output", "%s: %s is %s, but should be %s\ndeclared: %s\nstatement: %s", desc, out.Field, got, w, strings.Join(r.sql, "; "), stmtText(st))
			}
		}
		return
	}
	s.checkOutput(&outCheck{op: o, desc: desc, st: st, r: r, p: p, ok: ok, fired: fired, outRec: outRec, outF: outF, recT: rt0, prior: prior,
		priorCanon: priorCanon, oneBefore: oneBefore, oneScans: oneScans, inPlace: inPlace, batch: batch, why: why})
}

func sqlstate(code map[string]bool) func(error) string {
	return func(e error) string {
		var pe *pq.Error
		if !errors.As(e, &pe) {
			return "it is not the database's"
		}
		if !code[string(pe.Code)] {
			return "its SQLSTATE is " + string(pe.Code)
		}
		return ""
	}
}

func deref(v reflect.Value) reflect.Value {
	if v.Kind() == reflect.Ptr {
		return v.Elem()
	}
	return v
}

func stmtText(st *simdb.Stmt) string {
	if st == nil {
		return "(none)"
	}
	var a []string
	for _, v := range st.Args {
		a = append(a, simdb.Arg(v.Value))
	}
	return st.SQL + "\n  with " + strings.Join(a, ", ")
}

func diff(pre, want, got string) string {
	set := func(s string) map[string]int {
		m := map[string]int{}
		for _, l := range strings.Split(s, "\n") {
			m[l]++
		}
		return m
	}
	w, g := set(want), set(got)
	var out []string
	for l, n := range w {
		if g[l] < n {
			out = append(out, "missing: "+l)
		}
	}
	for l, n := range g {
		if w[l] < n {
			out = append(out, "there is: "+l)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// checkError compares the error of the method, and what the handler saw.
func (s *state) checkError(o *op, desc string, st *simdb.Stmt, err error, expect func(error) string, why string, p *plan, r *ref) {
	q := o.query
	seen := err
	if len(o.hand) > 0 {
		seen = o.hand[0]
	}
	var pe *pq.Error
	if errors.As(seen, &pe) && strings.HasPrefix(pe.Message, "invalid input syntax for type integer") && !r.code["22P02"] {
		s.fail("C04", "value-type", "%s: a value that its column can hold is refused: %v\nstatement: %s\ndeclared: %s", desc, seen, stmtText(st), strings.Join(r.sql, ";\n"))
		return
	}
	if errors.As(seen, &pe) && pe.Code == "42601" && q.Filter != "" && q.Order != "" && len(r.code) == 0 {
		s.fail("C04", "filter-order", "%s: the clauses of the Filter follow those of OrderBy: %v\nstatement: %s\ndeclared: %s", desc, seen, stmtText(st), strings.Join(r.sql, ";\n"))
		return
	}
	if q.Handler == "" {
		if expect == nil {
			if err != nil {
				s.fail("C04 C01", "unexpected-error", "%s: the method fails with %q, but nothing failed (fault %s)\nstatement: %s\ndeclared: %s", desc, err, p.kind, stmtText(st), strings.Join(r.sql, ";\n"))
			}
			return
		}
		c6 := ""
		if strings.Contains(why, "context") {
			c6 = " C06"
		}
		if err == nil {
			s.fail("C01"+c6, "swallow", "%s: %s, and the method reports success", desc, why)
		} else if m := expect(err); m != "" {
			s.fail("C01"+c6, "other-error", "%s: %s, and the method returns %q: %s\nstatement: %s", desc, why, err, m, stmtText(st))
		} else {
			rt.Hit("error.returned")
		}
		return
	}
	if expect == nil {
		if len(o.hand) > 0 {
			if err != nil && (r.code == nil) {
				s.fail("C05 C04", "handler-phantom", "%s: the handler is given %q, but nothing failed (fault %s)\nstatement: %s\ndeclared: %s", desc, o.hand[0], p.kind, stmtText(st), strings.Join(r.sql, ";\n"))
			}
			s.fail("C05", "handler-phantom", "%s: the handler is given %q, but nothing failed (fault %s)", desc, o.hand[0], p.kind)
		}
		if err != nil {
			s.fail("C01 C04 C05", "unexpected-error", "%s: the method fails with %q, but nothing failed and the handler was not asked (fault %s)", desc, err, p.kind)
		}
		return
	}
	if len(o.hand) == 0 {
		if err == nil {
			s.fail("C01 C05", "swallow", "%s: %s, the handler is not told and the method reports success", desc, why)
		}
		s.fail("C05", "handler-skipped", "%s: %s, and the handler is not told (the method returns %v)", desc, why, err)
		return
	}
	if len(o.hand) > 1 {
		s.fail("C05", "handler-twice", "%s: %s, and the handler is called %d times: %v", desc, why, len(o.hand), o.hand)
		return
	}
	if m := expect(o.hand[0]); m != "" {
		s.fail("C05 C01", "handler-error", "%s: %s, and the handler is given %q: %s", desc, why, o.hand[0], m)
		return
	}
	if err != o.handR {
		s.fail("C05", "handler-result", "%s: %s, the handler returned %v and the method returns %v", desc, why, o.handR, err)
		return
	}
	rt.Hit("error.handled")
	if o.handM == 2 {
		rt.Hit("error.handled.nil")
	}
	for _, i := range o.infos {
		if i.Error == nil {
			continue
		}
		kind := map[string]string{"insert": "Insert", "update": "Update", "delete": "Delete"}[q.Kind]
		if kind == "" {
			kind = "Select"
		}
		switch {
		case st != nil && i.QueryString != st.SQL:
			s.fail("C05", "info-text", "%s: the handler is told of the statement\n%s\nbut this one was sent:\n%s", desc, i.QueryString, st.SQL)
		case i.QueryKind != kind:
			s.fail("C05", "info-kind", "%s: the handler is told that the query is a %q", desc, i.QueryKind)
		case i.QueryName != q.Name:
			s.fail("C05", "info-name", "%s: the handler is told that the query is named %q", desc, i.QueryName)
		case i.QueryValue != o.val:
			s.fail("C05", "info-value", "%s: the handler is given another query value", desc)
		default:
			rt.Hit("error.info")
		}
	}
}
