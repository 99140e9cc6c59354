// Package simdb is the simulated database connection: a database/sql driver
// that hands statements to one real PostgreSQL session and decides, by plan,
// what the caller gets to see of it. Whatever happens in a run happens inside
// one real transaction that is rolled back at its end.
package simdb

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/lib/pq"
)

// Session is the real connection.
type Session struct {
	conn driver.Conn
}

func connect(dsn string) (driver.Conn, error) {
	cn, err := pq.NewConnector(dsn)
	if err != nil {
		return nil, err
	}
	for i := 0; ; i++ {
		c, err := cn.Connect(context.Background())
		if err == nil || i > 100 {
			return c, err
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// Open connects to the server.
func Open(dsn string) (*Session, error) {
	c, err := connect(dsn)
	if err != nil {
		return nil, err
	}
	return &Session{c}, nil
}

func (s *Session) Close() { s.conn.Close() }

// Broken is the panic value for trouble with the real connection.
type Broken struct{ Err error }

func serverError(err error) bool {
	var pe *pq.Error
	return errors.As(err, &pe)
}

// Exec runs a script.
func (s *Session) Exec(sql string) error {
	_, err := s.conn.(driver.ExecerContext).ExecContext(context.Background(), sql, nil)
	if err != nil && !serverError(err) {
		panic(Broken{fmt.Errorf("%w in %.300s", err, sql)})
	}
	return err
}

// Must runs a script that cannot fail.
func (s *Session) Must(sql string) {
	if err := s.Exec(sql); err != nil {
		panic(Broken{fmt.Errorf("%w in %.2000s", err, sql)})
	}
}

// A Result is a complete result.
type Result struct {
	Cols     []string
	Types    []string
	Rows     [][]driver.Value
	Affected int64
}

func (s *Session) run(sql string, args []driver.NamedValue, query bool) (*Result, error) {
	ctx := context.Background()
	if !query {
		r, err := s.conn.(driver.ExecerContext).ExecContext(ctx, sql, args)
		if err != nil {
			return nil, err
		}
		n, err := r.RowsAffected()
		return &Result{Affected: n}, err
	}
	rows, err := s.conn.(driver.QueryerContext).QueryContext(ctx, sql, args)
	if err != nil {
		return nil, err
	}
	res := &Result{Cols: rows.Columns()}
	tn, _ := rows.(driver.RowsColumnTypeDatabaseTypeName)
	for i := range res.Cols {
		t := ""
		if tn != nil {
			t = tn.ColumnTypeDatabaseTypeName(i)
		}
		res.Types = append(res.Types, t)
	}
	for {
		dest := make([]driver.Value, len(res.Cols))
		err := rows.Next(dest)
		if err == io.EOF {
			break
		}
		if err != nil {
			rows.Close()
			return nil, err
		}
		for i, v := range dest {
			if b, ok := v.([]byte); ok {
				dest[i] = append([]byte{}, b...)
			}
		}
		res.Rows = append(res.Rows, dest)
	}
	return res, rows.Close()
}

// Text runs a query and returns its rows as text (nil for NULL).
func (s *Session) Text(sql string) ([][]*string, error) {
	res, err := s.run(sql, nil, true)
	if err != nil {
		if !serverError(err) {
			panic(Broken{fmt.Errorf("%w in %.2000s", err, sql)})
		}
		return nil, err
	}
	var out [][]*string
	for _, r := range res.Rows {
		var row []*string
		for _, v := range r {
			switch x := v.(type) {
			case nil:
				row = append(row, nil)
			case []byte:
				t := string(x)
				row = append(row, &t)
			default:
				t := fmt.Sprint(x)
				row = append(row, &t)
			}
		}
		out = append(out, row)
	}
	return out, nil
}

// Err is an injected failure.
type Err struct{ Name string }

func (e *Err) Error() string { return "injected: " + e.Name }

// A Plan says what happens to the next statement.
type Plan struct {
	BadConn   int   // attempts that find a dead connection, before anything is applied
	ErrBefore error // fails without effect
	ErrAfter  error // fails although it took effect
	RowErrAt  int   // row at which fetching fails (RowErr != nil)
	RowErr    error
	RowUndo   bool // the broken-off statement had no effect
	Corrupt   int  // row with an undecodable column, 0: none (1 based)
	CorruptC  int
	AffErr    error
	CloseErr  error
	ConnErr   error  // connecting fails
	Shuffle   bool   // rows may come in any order
	Before    func() // while the statement is on its way
	After     func() // after it took effect
	AtRow     func(k int)
}

// A Stmt is a statement that reached the driver.
type Stmt struct {
	SQL         string
	Args        []driver.NamedValue
	Ctx         context.Context
	Query       bool
	Applied     bool
	Refused     bool // not sent: the transaction was over
	Err         error
	Res         *Result
	Served      int    // rows handed out
	Fault       string // what was injected, once it happened
	CloseFailed bool
	RowsN       int
}

// Sim is the simulated database.
type Sim struct {
	S     *Session
	Plan  Plan
	Stmts []*Stmt
	Ctxs  []context.Context

	OpenRows  atomic.Int32 // a cancelled context closes rows from another goroutine
	OpenStmts int
	OpenConns int
	Connects  int
	InTx      bool
	Aborted   bool // the transaction cannot go on
	Lost      bool // with its connection
	buf       []byte
	stale     [][]byte
}

// Connector for sql.OpenDB.
func (s *Sim) Connector() driver.Connector { return &connector{s} }

type connector struct{ s *Sim }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("simdb: not used") }

func (c *connector) Driver() driver.Driver { return drv{} }

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	c.s.Connects++
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if err := c.s.Plan.ConnErr; err != nil {
		rt.Hit("fault.connect")
		return nil, err
	}
	c.s.OpenConns++
	return &conn{s: c.s}, nil
}

type conn struct {
	s      *Sim
	closed bool
	bad    bool
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	c.s.OpenStmts++
	return &stmt{c: c, q: q}, nil
}

func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		c.s.OpenConns--
	}
	return nil
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	s := c.s
	if s.InTx {
		return nil, errors.New("simdb: nested transaction")
	}
	s.S.Must("SAVEPOINT utx")
	s.InTx, s.Aborted, s.Lost = true, false, false
	return &tx{c}, nil
}

func (c *conn) Ping(ctx context.Context) error {
	c.s.Ctxs = append(c.s.Ctxs, ctx)
	return ctx.Err()
}

func (c *conn) IsValid() bool { return !c.bad }

type tx struct{ c *conn }

func (t *tx) Commit() error {
	s := t.c.s
	s.InTx = false
	if s.Aborted {
		s.S.Must("ROLLBACK TO SAVEPOINT utx; RELEASE SAVEPOINT utx")
		if s.Lost {
			t.c.bad = true
			return driver.ErrBadConn
		}
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	s.S.Must("RELEASE SAVEPOINT utx")
	return nil
}

func (t *tx) Rollback() error {
	s := t.c.s
	s.InTx = false
	s.S.Must("ROLLBACK TO SAVEPOINT utx; RELEASE SAVEPOINT utx")
	return nil
}

type stmt struct {
	c      *conn
	q      string
	closed bool
}

func (s *stmt) Close() error {
	if !s.closed {
		s.closed = true
		s.c.s.OpenStmts--
	}
	return nil
}
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}
func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, args)
}
func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, args)
}

func named(args []driver.Value) []driver.NamedValue {
	var out []driver.NamedValue
	for i, a := range args {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return out
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	st, err := c.do(ctx, q, args, false)
	if err != nil {
		return nil, err
	}
	return &result{st.Res.Affected, c.s.Plan.AffErr, st}, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	st, err := c.do(ctx, q, args, true)
	if err != nil {
		return nil, err
	}
	c.s.OpenRows.Add(1)
	return &rows{c: c, st: st, ctx: ctx, p: &c.s.Plan}, nil
}

func copyArgs(args []driver.NamedValue) []driver.NamedValue {
	out := append([]driver.NamedValue(nil), args...)
	for i := range out {
		if b, ok := out[i].Value.([]byte); ok && b != nil {
			out[i].Value = append([]byte{}, b...)
		}
	}
	return out
}

func (c *conn) do(ctx context.Context, q string, args []driver.NamedValue, query bool) (*Stmt, error) {
	s, p := c.s, &c.s.Plan
	s.Ctxs = append(s.Ctxs, ctx)
	if c.bad || c.closed {
		return nil, driver.ErrBadConn
	}
	if s.OpenRows.Load() > 0 {
		// like lib/pq and every other driver of this protocol
		return nil, errors.New("simdb: the connection is busy with an open result")
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if p.BadConn > 0 {
		p.BadConn--
		rt.Hit("fault.badconn")
		c.bad = true
		if s.InTx {
			s.Aborted, s.Lost = true, true
		}
		return nil, driver.ErrBadConn
	}
	st := &Stmt{SQL: q, Args: copyArgs(args), Ctx: ctx, Query: query}
	s.Stmts = append(s.Stmts, st)
	fail := func(fault string, err error) (*Stmt, error) {
		st.Fault, st.Err = fault, err
		return st, err
	}
	if s.InTx && s.Aborted {
		st.Refused = true
		return fail("", &pq.Error{Severity: "ERROR", Code: "25P02", Message: "current transaction is aborted"})
	}
	if p.Before != nil {
		p.Before()
		if err := ctx.Err(); err != nil {
			rt.Hit("fault.cancel.before")
			return fail("cancel", err)
		}
	}
	if p.ErrBefore != nil {
		rt.Hit("fault.before")
		return fail("before", p.ErrBefore)
	}
	s.S.Must("SAVEPOINT stm")
	res, err := s.S.run(q, st.Args, query)
	if err != nil {
		if !serverError(err) {
			// a refusal by lib/pq itself (such as a wrong number of parameters)
			if errors.Is(err, driver.ErrBadConn) || errors.Is(err, io.EOF) {
				panic(Broken{fmt.Errorf("%w in %.2000s", err, q)})
			}
		}
		s.S.Must("ROLLBACK TO SAVEPOINT stm; RELEASE SAVEPOINT stm")
		if s.InTx {
			s.Aborted = true
		}
		return fail("", err)
	}
	st.Res = res
	st.RowsN = len(res.Rows)
	undo := query && p.RowErr != nil && p.RowUndo
	if undo {
		s.S.Must("ROLLBACK TO SAVEPOINT stm; RELEASE SAVEPOINT stm")
		if s.InTx {
			s.Aborted = true
		}
	} else {
		s.S.Must("RELEASE SAVEPOINT stm")
		st.Applied = true
	}
	if p.Shuffle && query {
		sortRows(res.Rows)
		if len(res.Rows) > 1 {
			pm := rt.Perm(len(res.Rows))
			out := make([][]driver.Value, len(pm))
			for i, j := range pm {
				out[i] = res.Rows[j]
			}
			res.Rows = out
			rt.Hit("rows.shuffled")
		}
	}
	if p.ErrAfter != nil {
		rt.Hit("fault.after")
		if s.InTx {
			s.Aborted, s.Lost = true, true
		}
		return fail("after", p.ErrAfter)
	}
	if p.After != nil {
		p.After()
	}
	if query && p.Corrupt > 0 && len(res.Rows) > 0 {
		k := (p.Corrupt - 1) % len(res.Rows)
		at := 0
		for i := range res.Cols {
			j := (i + p.CorruptC) % len(res.Cols)
			if v := corrupt(res.Types[j]); v != nil && res.Rows[k][j] != nil {
				res.Rows[k] = append([]driver.Value(nil), res.Rows[k]...)
				res.Rows[k][j] = v
				at = k + 1
				break
			}
		}
		p.Corrupt = at
	} else {
		p.Corrupt = 0
	}
	if query && p.RowErr != nil {
		if p.RowErrAt > len(res.Rows) {
			p.RowErrAt = len(res.Rows)
		}
		if p.Corrupt > 0 && p.Corrupt-1 < p.RowErrAt {
			p.RowErr = nil
		} else {
			p.Corrupt = 0
		}
	}
	return st, nil
}

// a value that no field of such a column can hold
func corrupt(typ string) driver.Value {
	switch typ {
	case "INT2", "INT4", "INT8":
		return []byte("1x")
	case "FLOAT4", "FLOAT8":
		return []byte("x")
	case "BOOL":
		return []byte("maybe")
	case "TIMESTAMPTZ":
		return []byte("x")
	case "_INT4":
		return []byte("{1,x}")
	case "JSONB", "JSON":
		return []byte("{")
	}
	return nil
}

func sortRows(rows [][]driver.Value) {
	key := make(map[*driver.Value]string, len(rows))
	k := func(r []driver.Value) string {
		if len(r) == 0 {
			return ""
		}
		s, ok := key[&r[0]]
		if !ok {
			var b strings.Builder
			for _, v := range r {
				if x, ok := v.([]byte); ok {
					fmt.Fprintf(&b, "%q|", x)
				} else {
					fmt.Fprintf(&b, "%v|", v)
				}
			}
			s = b.String()
			key[&r[0]] = s
		}
		return s
	}
	sort.SliceStable(rows, func(i, j int) bool { return k(rows[i]) < k(rows[j]) })
}

type result struct {
	n   int64
	err error
	st  *Stmt
}

func (r *result) LastInsertId() (int64, error) {
	return 0, errors.New("no LastInsertId available after the empty statement")
}
func (r *result) RowsAffected() (int64, error) {
	if r.err != nil {
		rt.Hit("fault.affected")
		r.st.Fault = "affected"
		return 0, r.err
	}
	return r.n, nil
}

type rows struct {
	c      *conn
	st     *Stmt
	p      *Plan
	ctx    context.Context
	i      int
	closed bool
}

func (r *rows) Columns() []string { return r.st.Res.Cols }

func (r *rows) ColumnTypeDatabaseTypeName(i int) string { return r.st.Res.Types[i] }

func (r *rows) Close() error {
	if !r.closed {
		r.closed = true
		r.c.s.OpenRows.Add(-1)
		r.c.s.clobber()
		if r.p.CloseErr != nil {
			rt.Hit("fault.close")
			r.st.CloseFailed = true
			return r.p.CloseErr
		}
	}
	return nil
}

func (s *Sim) clobber() {
	for _, b := range s.stale {
		for i := range b {
			b[i] = '#'
		}
	}
	s.stale = s.stale[:0]
	s.buf = s.buf[:0]
}

func (s *Sim) lend(b []byte) []byte {
	if s.buf == nil || cap(s.buf)-len(s.buf) < len(b) {
		s.buf = make([]byte, 0, 4096+len(b))
	}
	n := len(s.buf)
	s.buf = append(s.buf, b...)
	out := s.buf[n:len(s.buf):len(s.buf)]
	s.stale = append(s.stale, out)
	return out
}

func (r *rows) Next(dest []driver.Value) error {
	s := r.c.s
	s.clobber()
	if r.p.AtRow != nil {
		r.p.AtRow(r.i)
	}
	if err := r.ctx.Err(); err != nil {
		rt.Hit("fault.cancel.row")
		r.st.Fault = "cancel"
		r.i = len(r.st.Res.Rows)
		return err
	}
	if r.p.RowErr != nil && r.i == r.p.RowErrAt {
		rt.Hit("fault.row")
		r.st.Fault = "row"
		if r.i > 0 {
			rt.Hit("fault.row.later")
		}
		return r.p.RowErr
	}
	if r.i >= len(r.st.Res.Rows) {
		return io.EOF
	}
	if r.p.Corrupt == r.i+1 {
		rt.Hit("fault.corrupt")
		r.st.Fault = "corrupt"
	}
	for j, v := range r.st.Res.Rows[r.i] {
		if b, ok := v.([]byte); ok {
			v = s.lend(b)
		}
		dest[j] = v
	}
	r.i++
	r.st.Served = r.i
	return nil
}

// Arg renders an argument for traces.
func Arg(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		if x == nil {
			return "nil []byte"
		}
		return fmt.Sprintf("%q", x)
	case string:
		return fmt.Sprintf("%q", x)
	case time.Time:
		return x.UTC().Format(time.RFC3339Nano)
	}
	if v == nil {
		return "NULL"
	}
	return fmt.Sprint(reflect.ValueOf(v).Interface())
}
