package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/frk/gosql"
	"github.com/frk/gosql/zzsim/qgen/qrt"
	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simdb"
	"github.com/frk/gosql/zzsim/simutil"
)

// Several callers execute generated methods at once. Each call is first
// executed alone, against PostgreSQL; what the driver answered is recorded and
// answered again when the callers run concurrently. Every caller has a pool of
// its own, so that nothing but the code under test can make one see another.

// A tape is what the driver answered to one call.
type tape struct {
	res *simdb.Result
	err error // the statement is refused
	at  int   // row at which fetching fails
	row error
	aff error
}

// player is a driver connection that answers from a tape.
type player struct {
	t    *tape
	sql  []string
	args [][]driver.NamedValue
	open int
}

func (p *player) Connect(context.Context) (driver.Conn, error) { return p, nil }
func (p *player) Driver() driver.Driver                        { return nil }
func (p *player) Prepare(string) (driver.Stmt, error)          { return nil, driver.ErrSkip }
func (p *player) Close() error                                 { return nil }
func (p *player) Begin() (driver.Tx, error)                    { return nil, driver.ErrSkip }

func (p *player) take(q string, args []driver.NamedValue) error {
	rt.Yield()
	p.sql = append(p.sql, q)
	c := make([]driver.NamedValue, len(args))
	copy(c, args)
	for i := range c {
		if b, ok := c[i].Value.([]byte); ok && b != nil {
			c[i].Value = append([]byte{}, b...)
		}
	}
	p.args = append(p.args, c)
	rt.Yield()
	return p.t.err
}

func (p *player) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := p.take(q, args); err != nil {
		return nil, err
	}
	n := int64(0)
	if p.t.res != nil {
		n = p.t.res.Affected
	}
	return playResult{n, p.t.aff}, nil
}

func (p *player) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := p.take(q, args); err != nil {
		return nil, err
	}
	p.open++
	return &playRows{p: p}, nil
}

type playResult struct {
	n   int64
	err error
}

func (r playResult) LastInsertId() (int64, error) { return 0, r.err }
func (r playResult) RowsAffected() (int64, error) { rt.Yield(); return r.n, r.err }

type playRows struct {
	p    *player
	i    int
	done bool
	buf  []byte
}

func (r *playRows) Columns() []string {
	if r.p.t.res == nil {
		return nil
	}
	return r.p.t.res.Cols
}

func (r *playRows) Close() error {
	if !r.done {
		r.done = true
		r.p.open--
		for i := range r.buf {
			r.buf[i] = '#'
		}
	}
	return nil
}

func (r *playRows) Next(dest []driver.Value) error {
	rt.Yield()
	for i := range r.buf {
		r.buf[i] = '#'
	}
	if r.p.t.row != nil && r.i == r.p.t.at {
		return r.p.t.row
	}
	if r.p.t.res == nil || r.i >= len(r.p.t.res.Rows) {
		return io.EOF
	}
	row := r.p.t.res.Rows[r.i]
	n := 0
	for _, v := range row {
		if b, ok := v.([]byte); ok {
			n += len(b)
		}
	}
	if r.buf == nil || cap(r.buf) < n {
		r.buf = make([]byte, 0, n+256)
	}
	r.buf = r.buf[:0]
	for j, v := range row {
		if b, ok := v.([]byte); ok {
			k := len(r.buf)
			r.buf = append(r.buf, b...)
			v = r.buf[k:len(r.buf):len(r.buf)]
		}
		dest[j] = v
	}
	r.i++
	return nil
}

// A concCall is one call of one caller.
type concCall struct {
	*op
	tape   *tape
	handM  int
	iterAt int // the iterator fails at this record
	iterE  error

	// how it went alone
	sql  string
	args []driver.NamedValue
	want string

	// the call that runs concurrently
	val  interface{}
	run  *concRun
	plyr *player
	db   *sql.DB
}

// concRun is what the user code of one execution saw.
type concRun struct {
	hand  []error
	infos []gosql.ErrorInfo
	recs  []interface{}
	fpos  int
	err   error
	pan   interface{}
}

var concFail = &simdb.Err{Name: "concurrent"}

// wire gives the query value its user code.
func (c *concCall) wire(val interface{}) *concRun {
	r := &concRun{fpos: -1}
	rv := reflect.ValueOf(val).Elem()
	q := c.query
	if q.CtxField != "" {
		rv.FieldByName(q.CtxField).Set(reflect.ValueOf(context.Background()))
	}
	handle := func(err error) error {
		if err == nil {
			return nil
		}
		r.hand = append(r.hand, err)
		switch c.handM {
		case 1:
			return concFail
		case 2:
			return nil
		}
		return err
	}
	if q.Handler != "" {
		setHandler(rv.FieldByName(q.HandlerField), handle, func(i *gosql.ErrorInfo) { r.infos = append(r.infos, *i) })
	}
	if c.e.SetIter != nil {
		c.e.SetIter(val, func(rec interface{}) error {
			r.recs = append(r.recs, rec)
			rt.Yield()
			if c.iterE != nil && len(r.recs) == c.iterAt+1 {
				return c.iterE
			}
			return nil
		})
	}
	if q.Filter != "" {
		rv.FieldByName(q.Filter).Set(reflect.ValueOf(&qrt.Filter{F: func(pos int) (string, []interface{}) {
			r.fpos = pos
			return c.fText(pos)
		}}))
	}
	return r
}

func (c *concCall) exec(val interface{}, r *concRun, db *sql.DB) {
	defer func() { r.pan = recover() }()
	var ctx context.Context
	if c.CtxArg {
		ctx = context.Background()
	}
	r.err = c.e.Exec(val, ctx, db)
}

// outcome describes an execution.
func (c *concCall) outcome(val interface{}, r *concRun) string {
	var b strings.Builder
	rv := reflect.ValueOf(val).Elem()
	fmt.Fprintf(&b, "error %v, panic %v, handler given %v, filter at %d", r.err, r.pan != nil, r.hand, r.fpos)
	for _, i := range r.infos {
		fmt.Fprintf(&b, ", info %q %s %s %v", i.QueryString, i.QueryKind, i.QueryName, i.QueryValue == val)
	}
	for _, n := range []string{c.RowsAffected, c.LimitField, c.OffsetField} {
		if n != "" {
			fmt.Fprintf(&b, ", %s=%v", n, rv.FieldByName(n).Interface())
		}
	}
	if out := c.Out(); out != nil {
		if out.Rec == "" {
			fmt.Fprintf(&b, ", %s=%v", out.Field, rv.FieldByName(out.Field).Interface())
		} else {
			leaves := spec.Recs[out.Rec].Leaves
			rec := func(v reflect.Value) {
				if v.Kind() == reflect.Ptr {
					if v.IsNil() {
						b.WriteString("\n  nil")
						return
					}
					v = v.Elem()
				}
				fmt.Fprintf(&b, "\n  %s%d", canonRec(v, leaves), scans(v))
			}
			f := rv.FieldByName(out.Field)
			switch out.Form {
			case "one":
				rec(f)
			case "slice":
				for i := 0; i < f.Len(); i++ {
					rec(f.Index(i))
				}
			default:
				for _, x := range r.recs {
					rec(reflect.ValueOf(x))
				}
			}
		}
	}
	if c.Rel.Rec != "" && (c.Kind == "insert" || c.Kind == "update") {
		b.WriteString("\n input")
		for _, v := range (&query{c.Query, rv}).inputs() {
			fmt.Fprintf(&b, "\n  %s", canonRec(v, spec.Recs[c.Rel.Rec].Leaves))
		}
	}
	return b.String()
}

func (s *state) newConc(other *concCall) *concCall {
	c := &concCall{}
	if other != nil {
		c.op = &op{e: other.e}
		c.op.val = c.e.New()
		c.op.query = &query{other.Query, reflect.ValueOf(c.op.val).Elem()}
		c.op.fill()
	} else {
		c.op = s.newOp()
	}
	c.handM = rt.Draw(3)
	return c
}

func runConc(w *simutil.Worker) *simutil.Violation {
	s := &state{w: w}
	sess.Must(world())
	open := true
	closeRun := func() {
		if open {
			open = false
			sess.Must(endRun)
		}
	}
	defer closeRun()
	qrt.OnAfterScan = nil
	n := 2 + rt.Draw(3)
	calls := make([][]*concCall, n)
	var all []*concCall
	for i := range calls {
		for k := rt.Range(1, 3); k > 0; k-- {
			var other *concCall
			if len(all) > 0 && rt.Draw(2) == 1 {
				other = all[rt.Draw(len(all))]
			}
			c := s.newConc(other)
			calls[i] = append(calls[i], c)
			all = append(all, c)
		}
	}
	shuf := rt.ShuffleMaps
	rt.ShuffleMaps = false
	defer func() { rt.ShuffleMaps = shuf }()

	// alone
	for _, c := range all {
		c.val = clone(reflect.ValueOf(c.op.val)).Interface()
		sess.Must("SAVEPOINT one; " + seqSQL)
		sim := &simdb.Sim{S: sess}
		db := sql.OpenDB(sim.Connector())
		out := c.Out()
		c.tape = &tape{}
		switch fk := rt.Draw(6); {
		case fk == 1:
			sim.Plan.ErrBefore = concFail
		case fk == 2 && out != nil:
			sim.Plan.RowErr = concFail
			if out.Form == "slice" || out.Form == "iter" || out.Form == "iface" {
				sim.Plan.RowErrAt = rt.Draw(4)
			}
		case fk == 3 && c.RowsAffected != "":
			sim.Plan.AffErr = concFail
		case fk == 4 && c.e.SetIter != nil:
			c.iterAt, c.iterE = rt.Draw(3), concFail
		}
		r := c.wire(c.op.val)
		c.exec(c.op.val, r, db)
		db.Close()
		sess.Must("ROLLBACK TO SAVEPOINT one; RELEASE SAVEPOINT one")
		if _, ok := r.pan.(simdb.Broken); ok {
			panic(r.pan)
		}
		if len(sim.Stmts) != 1 || sim.OpenRows.Load() != 0 {
			rt.Hit("run.stopped.alone")
			return nil // what a single call does wrong is for other checks
		}
		st := sim.Stmts[0]
		c.sql, c.args = st.SQL, st.Args
		c.tape.res, c.tape.err, c.tape.aff = st.Res, st.Err, sim.Plan.AffErr
		c.tape.row, c.tape.at = sim.Plan.RowErr, sim.Plan.RowErrAt
		c.want = c.outcome(c.op.val, r)
	}
	closeRun()

	// concurrently
	for _, c := range all {
		c.run = c.wire(c.val)
		c.plyr = &player{t: c.tape}
		c.db = sql.OpenDB(c.plyr)
	}
	var list []rt.Task
	for i := range calls {
		i := i
		list = append(list, rt.Task{Name: fmt.Sprint("caller", i), Fn: func() {
			for _, c := range calls[i] {
				c.exec(c.val, c.run, c.db)
			}
		}})
	}
	pan := rt.RunTasks(list)
	rt.Hit("tasks.run")
	sample = ""
	for i := range calls {
		if pan[i] != nil {
			return simutil.Violate("panic", "caller %d: %v\n%s", i, pan[i].Value, pan[i].Stack)
		}
		for k, c := range calls[i] {
			c.db.Close()
			w.Evals++
			rt.Hit("exec." + c.Kind)
			desc := c.Key() + " (" + c.Sig() + ")"
			if len(sample) < 300 {
				sample += fmt.Sprintf("task%d: %s; ", i, desc)
			}
			rt.ObserveString(c.Key())
			if len(c.plyr.sql) != 1 || c.plyr.sql[0] != c.sql {
				return simutil.Violate("statement", "caller %d call %d, %s: alone it sends\n%s\nand next to other callers\n%s", i, k, desc, c.sql, strings.Join(c.plyr.sql, "\n---\n"))
			}
			if a, b := argText(c.args), argText(c.plyr.args[0]); a != b {
				return simutil.Violate("arguments", "caller %d call %d, %s: alone it sends the values %s and next to other callers %s", i, k, desc, a, b)
			}
			if c.plyr.open != 0 {
				return simutil.Violate("rows-open", "caller %d call %d, %s: the result is open after the method ended", i, k, desc)
			}
			if got := c.outcome(c.val, c.run); got != c.want {
				return simutil.Violate("isolation", "caller %d call %d, %s: alone\n%s\nand next to other callers\n%s", i, k, desc, c.want, got)
			}
		}
	}
	return nil
}

func argText(args []driver.NamedValue) string {
	var s []string
	for _, a := range args {
		s = append(s, simdb.Arg(a.Value))
	}
	return strings.Join(s, ", ")
}

// clone is a deep copy.
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(clone(v.Elem()))
		return p
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(clone(v.Index(i)))
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		m := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			m.SetMapIndex(k, clone(v.MapIndex(k)))
		}
		return m
	case reflect.Struct:
		s := reflect.New(v.Type()).Elem()
		s.Set(v)
		for i := 0; i < s.NumField(); i++ {
			if f := s.Field(i); f.CanSet() {
				f.Set(clone(v.Field(i)))
			}
		}
		return s
	}
	return v
}
