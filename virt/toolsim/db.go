package main

import (
	"context"
	"crypto/sha256"
	"database/sql/driver"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lib/pq"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simutil"
)

// server is a simulated database server. What it answers comes from a real
// one, asked once per process and statement; which rows come first, what fails
// and when, is decided by the run.
type server struct {
	name  string
	alias string // the name that the tool sees
	dsn   string
	raw   driver.Conn
	memo  map[string]*reply
	seqs  string
}

type reply struct {
	cols    []string
	rows    [][]driver.Value
	err     error
	ordered bool
	changed string // how the statement changed the database
}

// dbOps is the interaction of one simulated process with its server.
type dbOps struct {
	ops      int
	kinds    []string
	openC    int
	openR    int
	openS    int
	openT    int
	fault    *dbFault
	fired    string // kind of the fault that was delivered
	must     bool   // the operation cannot succeed
	down     bool
	changed  []string
	stmts    int
	shuffle  bool
	connects int
}

type dbFault struct {
	at   int
	kind string // connect, error, io, badconn, row, corrupt, down
	frac int    // which row, in thousandths
	col  int
}

var (
	dbo     *dbOps
	servers = map[string]*server{} // by data source name
)

var errServerGone = &net.OpError{Op: "read", Net: "unix", Err: syscall.ECONNRESET}

// failure is the error of a fault.
func failure(kind string) error {
	switch kind {
	case "error":
		return &pq.Error{Severity: "ERROR", Code: "57014", Message: "canceling statement due to statement timeout"}
	case "io":
		return errServerGone
	case "badconn":
		return driver.ErrBadConn
	case "eof":
		return io.ErrUnexpectedEOF
	}
	return &net.OpError{Op: "dial", Net: "unix", Err: syscall.ECONNREFUSED}
}

// point is one interaction with the server. It returns the fault to inject.
func (d *dbOps) point(kind string) *dbFault {
	if d.down {
		return &dbFault{kind: "io"}
	}
	i := d.ops
	d.ops++
	d.kinds = append(d.kinds, kind)
	if d.fault != nil && d.fault.at == i {
		return d.fault
	}
	return nil
}

func (d *dbOps) fire(kind string, must bool) {
	d.fired = kind
	d.must = d.must || must
	rt.Hit("fault.db." + kind)
	rt.Logf("database fault: " + kind)
}

func newServer(dsn, db string) (*server, error) {
	s := &server{name: db, dsn: dsn + " dbname=" + db, memo: map[string]*reply{}}
	if err := s.dial(); err != nil {
		return nil, err
	}
	s.seqs = s.sequences()
	return s, nil
}

func (s *server) dial() error {
	cn, err := pq.NewConnector(s.dsn)
	if err != nil {
		return err
	}
	for i := 0; i < 50; i++ {
		if s.raw, err = cn.Connect(context.Background()); err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err == nil {
		_, err = s.exec("SET client_min_messages = error; SET statement_timeout = '30s'")
	}
	return err
}

func (s *server) exec(q string) (driver.Result, error) {
	return s.raw.(driver.ExecerContext).ExecContext(context.Background(), q, nil)
}

func (s *server) one(q string) string {
	r := s.query(q, nil)
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	if len(r.rows) == 0 {
		return ""
	}
	if b, ok := r.rows[0][0].([]byte); ok {
		return string(b)
	}
	return fmt.Sprint(r.rows[0][0])
}

func (s *server) sequences() string {
	return s.one("SELECT coalesce(string_agg(schemaname || '.' || sequencename || '=' || coalesce(last_value::text, '-'), ',' ORDER BY schemaname, sequencename), '') FROM pg_sequences")
}

// fingerprint covers the catalogs and the contents of all tables.
func (s *server) fingerprint() string {
	var b strings.Builder
	b.WriteString(s.sequences())
	for _, c := range []string{"pg_class", "pg_attribute", "pg_proc", "pg_constraint", "pg_type", "pg_namespace", "pg_largeobject_metadata", "pg_db_role_setting"} {
		x := "oid::text || xmin::text"
		if c == "pg_attribute" {
			x = "attrelid::text || attname || xmin::text"
		} else if c == "pg_db_role_setting" {
			x = "setrole::text || xmin::text"
		}
		fmt.Fprintf(&b, " %s=%s", c, s.one("SELECT count(*)::text || '/' || coalesce(sum(hashtextextended("+x+", 0)), 0)::text FROM "+c))
	}
	r := s.query("SELECT quote_ident(n.nspname) || '.' || quote_ident(c.relname) FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE c.relkind = 'r' AND n.nspname NOT LIKE 'pg%' AND n.nspname <> 'information_schema' ORDER BY 1", nil)
	for _, row := range r.rows {
		t := fmt.Sprint(row[0])
		if x, ok := row[0].([]byte); ok {
			t = string(x)
		}
		fmt.Fprintf(&b, " %s=%s", t, s.one("SELECT count(*)::text || '/' || coalesce(sum(hashtextextended(x::text || xmin::text, 0)), 0)::text FROM "+t+" x"))
	}
	return b.String()
}

func (s *server) query(q string, args []driver.NamedValue) *reply {
	rows, err := s.raw.(driver.QueryerContext).QueryContext(context.Background(), q, args)
	if err != nil {
		return &reply{err: err}
	}
	return drain(rows)
}

func drain(rows driver.Rows) *reply {
	r := &reply{cols: rows.Columns()}
	for {
		dest := make([]driver.Value, len(r.cols))
		err := rows.Next(dest)
		if err == io.EOF {
			break
		}
		if err != nil {
			r.err = err
			break
		}
		for i, v := range dest {
			if b, ok := v.([]byte); ok {
				dest[i] = append([]byte{}, b...)
			}
		}
		r.rows = append(r.rows, dest)
	}
	rows.Close()
	return r
}

// stmt is a statement as it reaches the server.
type stmt struct {
	query    string
	args     []driver.NamedValue
	prepared bool
}

// key does without package fmt, whose pools order the tasks that use it.
func (t stmt) key() string {
	k := "q|"
	if t.prepared {
		k = "p|"
	}
	k += t.query
	for _, a := range t.args {
		switch v := a.Value.(type) {
		case nil:
			k += "|nil"
		case string:
			k += "|s:" + v
		case []byte:
			k += "|b:" + string(v)
		case int64:
			k += "|i:" + strconv.FormatInt(v, 10)
		case bool:
			k += "|t:" + strconv.FormatBool(v)
		case float64:
			k += "|f:" + strconv.FormatFloat(v, 'g', -1, 64)
		default:
			k += fmt.Sprintf("|%T:%v", v, v)
		}
	}
	return k
}

// word is the first keyword of a statement.
func word(q string) string {
	q = strings.TrimLeft(q, " \t\r\n(")
	for strings.HasPrefix(q, "--") || strings.HasPrefix(q, "/*") {
		if strings.HasPrefix(q, "--") {
			if i := strings.IndexByte(q, '\n'); i >= 0 {
				q = q[i+1:]
			} else {
				q = ""
			}
		} else if i := strings.Index(q, "*/"); i >= 0 {
			q = q[i+2:]
		} else {
			q = ""
		}
		q = strings.TrimLeft(q, " \t\r\n(")
	}
	i := 0
	for i < len(q) && (q[i] >= 'a' && q[i] <= 'z' || q[i] >= 'A' && q[i] <= 'Z') {
		i++
	}
	return strings.ToUpper(q[:i])
}

func plain(q string) bool {
	switch word(q) {
	case "SELECT", "SHOW", "VALUES", "TABLE":
		return true
	}
	return false
}

// hasOrder tells whether the outermost query fixes the order of its rows.
func hasOrder(q string) bool {
	depth := 0
	up := strings.ToUpper(q)
	for i := 0; i < len(up); i++ {
		switch up[i] {
		case '(':
			depth++
		case ')':
			depth--
		case '\'':
			for i++; i < len(up) && up[i] != '\''; i++ {
			}
		case 'O':
			if depth == 0 && strings.HasPrefix(up[i:], "ORDER") && strings.Contains(up[i:], "BY") {
				return true
			}
		}
	}
	return false
}

// ask returns the server's answer to a statement that a connection sends
// after the statements hist, in a transaction of the client (tx is its BEGIN)
// or on its own.
func (s *server) ask(tx string, hist []stmt, st stmt) *reply {
	key := tx
	for _, h := range hist {
		key += "||" + h.key()
	}
	key += "||" + st.key()
	if r := s.memo[key]; r != nil {
		return r
	}
	if inTasks() {
		// the server is asked when no tasks run
		missed(s, tx, hist, st)
		return &reply{err: errMissed}
	}
	r := s.fill(tx, hist, st)
	for _, row := range r.rows {
		for i, v := range row {
			if b, ok := v.([]byte); ok && string(b) == s.name {
				row[i] = []byte(s.alias)
			}
		}
	}
	r.ordered = hasOrder(st.query) || len(r.rows) < 2
	if !r.ordered {
		keys := make([]string, len(r.rows))
		idx := make([]int, len(r.rows))
		for i, row := range r.rows {
			keys[i] = fmt.Sprintf("%s", row)
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
		sorted := make([][]driver.Value, len(r.rows))
		for i, j := range idx {
			sorted[i] = r.rows[j]
		}
		r.rows = sorted
	}
	s.memo[key] = r
	return r
}

const wrote = "the statement writes (the server assigned a transaction id)"

func (s *server) fill(tx string, hist []stmt, st stmt) *reply {
	deep := strings.Contains(st.query, ";") || !plain(st.query)
	before := ""
	if deep {
		before = s.fingerprint()
	}
	begin := tx
	if begin == "" {
		begin = "BEGIN"
	}
	if _, err := s.exec(begin); err != nil {
		return &reply{err: err}
	}
	if _, err := s.exec("SET LOCAL zz.mark = 'here'"); err != nil {
		return &reply{err: err}
	}
	send := func(t stmt) *reply {
		if t.prepared {
			p, err := s.raw.Prepare(t.query)
			if err != nil {
				return &reply{err: err}
			}
			defer p.Close()
			vals := make([]driver.Value, len(t.args))
			for i, a := range t.args {
				vals[i] = a.Value
			}
			rows, err := p.Query(vals)
			if err != nil {
				return &reply{err: err}
			}
			return drain(rows)
		}
		return s.query(t.query, t.args)
	}
	var r *reply
	for _, h := range hist {
		if r = send(h); r.err != nil {
			break
		}
	}
	if r == nil || r.err == nil {
		r = send(st)
	}
	if r.err == nil {
		if x := s.one("SELECT coalesce(current_setting('zz.mark', true), '')"); x != "here" {
			r.changed = "the statement ends the transaction it runs in"
		} else if x := s.one("SELECT coalesce(txid_current_if_assigned()::text, '')"); x != "" {
			r.changed = wrote
		}
	}
	if _, err := s.exec("ROLLBACK"); err != nil {
		_ = s.dial()
	}
	if x := s.sequences(); x != s.seqs {
		r.changed = "the statement advances or sets a sequence"
		s.seqs = x
	}
	if deep {
		if after := s.fingerprint(); after != before && r.changed == "" {
			r.changed = "the statement changes tables or catalogs"
		}
	}
	return r
}

// ---- the driver ----

type connector struct{ s *server }

var taskOps []*dbOps // of the tasks, while there are several

// ops is the interaction of the process, or of the task, that is running.
//
//go:norace
func ops() *dbOps {
	if taskOps != nil {
		return taskOps[rt.CurTask()]
	}
	return dbo
}

func connect(driverName, dsn string) (driver.Connector, error) {
	if driverName != "postgres" {
		return nil, fmt.Errorf("sql: unknown driver %q (forgotten import?)", driverName)
	}
	s := servers[dsn]
	if s == nil {
		s = &server{name: "none"}
	}
	return &connector{s}, nil
}

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("not used") }

func (c *connector) Driver() driver.Driver { return drv{} }

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	if f := ops().point("connect"); f != nil {
		switch f.kind {
		case "badconn":
			ops().fire("badconn", false)
			return nil, driver.ErrBadConn
		case "down":
			ops().down = true
			ops().fire("down", true)
			return nil, failure("connect")
		default:
			if !ops().down {
				ops().fire("connect", true)
			}
			return nil, failure("connect")
		}
	}
	if c.s.memo == nil {
		return nil, &pq.Error{Severity: "FATAL", Code: "3D000", Message: "database does not exist"}
	}
	ops().openC++
	ops().connects++
	return &conn{s: c.s}, nil
}

type conn struct {
	s      *server
	bad    bool
	closed bool
	tx     string
	abort  bool
	hist   []stmt
	txh    []stmt
	// changes of the transaction
	pending []string
}

func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		ops().openC--
	}
	return nil
}

func (c *conn) IsValid() bool { return !c.bad }

// gate applies faults of the connection to an operation.
func (c *conn) gate(kind string) (*dbFault, error) {
	if c.bad {
		return nil, driver.ErrBadConn
	}
	f := ops().point(kind)
	if f == nil {
		return nil, nil
	}
	must := kind != "rollback" // nothing depends on it
	switch f.kind {
	case "row", "corrupt":
		if kind == "query" {
			return f, nil
		}
		ops().fire("io", must)
		c.bad = true
		return nil, failure("io")
	case "badconn":
		ops().fire("badconn", false)
		c.bad = true
		return nil, driver.ErrBadConn
	case "down":
		ops().down = true
		ops().fire("down", must)
		c.bad = true
		return nil, failure("io")
	case "error":
		if kind == "ping" {
			c.bad = true
		}
		ops().fire("error", must)
		c.abort = c.tx != ""
		return nil, failure("error")
	default:
		if !ops().down {
			ops().fire(f.kind, must)
		}
		c.bad = true
		return nil, failure(f.kind)
	}
}

func (c *conn) Ping(ctx context.Context) error {
	_, err := c.gate("ping")
	return err
}

func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	if _, err := c.gate("begin"); err != nil {
		return nil, err
	}
	c.tx = "BEGIN"
	if opts.Isolation != 0 {
		switch int(opts.Isolation) {
		case 2:
			c.tx += " ISOLATION LEVEL READ COMMITTED"
		case 4:
			c.tx += " ISOLATION LEVEL REPEATABLE READ"
		case 6:
			c.tx += " ISOLATION LEVEL SERIALIZABLE"
		}
	}
	if opts.ReadOnly {
		c.tx += " READ ONLY"
	}
	c.abort, c.txh = false, nil
	ops().openT++
	return &tx{c}, nil
}

type tx struct{ c *conn }

func (t *tx) end(kind string) error {
	ops().openT--
	c := t.c
	if kind == "commit" && !c.abort {
		ops().changed = append(ops().changed, c.pending...)
	}
	c.tx, c.abort, c.txh, c.pending = "", false, nil, nil
	_, err := c.gate(kind)
	return err
}

func (t *tx) Commit() error   { return t.end("commit") }
func (t *tx) Rollback() error { return t.end("rollback") }

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	return c.run(ctx, stmt{query: q, args: args})
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.run(ctx, stmt{query: q, args: args})
	if err != nil {
		return nil, err
	}
	r.Close()
	return driver.RowsAffected(0), nil
}

func (c *conn) run(ctx context.Context, st stmt) (driver.Rows, error) {
	ops().stmts++
	f, err := c.gate("query")
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if c.tx != "" && c.abort {
		return nil, &pq.Error{Severity: "ERROR", Code: "25P02", Message: "current transaction is aborted, commands ignored until end of transaction block"}
	}
	hist := append(append([]stmt(nil), c.hist...), c.txh...)
	r := c.s.ask(c.tx, hist, st)
	if r.changed != "" {
		if c.tx != "" && r.changed == wrote { // changes nothing unless committed
			c.pending = append(c.pending, r.changed+": "+st.query)
		} else {
			ops().changed = append(ops().changed, r.changed+": "+st.query)
		}
	}
	if !plain(st.query) && r.err == nil {
		if c.tx != "" {
			c.txh = append(c.txh, st)
		} else {
			c.hist = append(c.hist, st)
		}
	}
	if r.err != nil {
		c.abort = c.tx != ""
		return nil, r.err
	}
	rs := &rows{c: c, r: r, fault: f}
	if ops().shuffle && !r.ordered {
		rs.order = make([]int, len(r.rows))
		for i := range rs.order {
			rs.order[i] = i
		}
		rt.Shuffle(len(rs.order), func(i, j int) { rs.order[i], rs.order[j] = rs.order[j], rs.order[i] })
		rt.Hit("rows.shuffled")
	}
	if f != nil {
		n := len(r.rows)
		switch f.kind {
		case "row":
			rs.breakAt = n * f.frac / 1000
			if f.frac >= 999 {
				rs.breakAt = n
			}
		case "corrupt":
			rs.breakAt = -1
			if n == 0 {
				rs.breakAt = 0 // nothing to corrupt: break off
				rs.fault = &dbFault{kind: "row"}
			} else {
				rs.bad = (n - 1) * f.frac / 1000
				// corrupt a number or a truth value
				var cols []int
				row := r.rows[rs.at(rs.bad)]
				for i, v := range row {
					switch v.(type) {
					case int64, bool:
						cols = append(cols, i)
					}
				}
				if len(cols) == 0 {
					rs.breakAt = rs.bad
					rs.fault = &dbFault{kind: "row"}
				} else {
					rs.col = cols[f.col%len(cols)]
				}
			}
		}
	}
	ops().openR++
	return rs, nil
}

type rows struct {
	c       *conn
	r       *reply
	order   []int
	i       int
	fault   *dbFault
	breakAt int
	bad     int
	col     int
	failed  error
	closed  bool
}

func (r *rows) at(i int) int {
	if r.order != nil {
		return r.order[i]
	}
	return i
}

func (r *rows) Columns() []string { return r.r.cols }

// Close reads what is left, like lib/pq.
func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	ops().openR--
	if r.fault != nil && r.fault.kind == "row" && r.failed == nil {
		r.breakOff(false)
		return r.failed
	}
	return nil
}

func (r *rows) breakOff(must bool) {
	kind := "row"
	if r.breakAt > 0 {
		kind = "row.later"
	}
	ops().fire(kind, must)
	r.c.bad = true
	r.failed = failure("eof")
	if r.fault.col%2 == 1 { // the server reports an error instead
		r.failed = failure("error")
		r.c.bad = false
		r.c.abort = r.c.tx != ""
	}
}

func (r *rows) Next(dest []driver.Value) error {
	if r.failed != nil {
		return r.failed
	}
	if r.fault != nil && r.fault.kind == "row" && r.i >= r.breakAt {
		r.breakOff(true)
		return r.failed
	}
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	row := r.r.rows[r.at(r.i)]
	for i, v := range row {
		if b, ok := v.([]byte); ok {
			v = append([]byte{}, b...)
		}
		dest[i] = v
	}
	if r.fault != nil && r.fault.kind == "corrupt" && r.i == r.bad {
		ops().fire("corrupt", true)
		dest[r.col] = []byte("x?")
	}
	r.i++
	return nil
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}

func (c *conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if _, err := c.gate("prepare"); err != nil {
		return nil, err
	}
	ops().openS++
	return &pstmt{c: c, q: q}, nil
}

type pstmt struct {
	c      *conn
	q      string
	closed bool
}

func (p *pstmt) Close() error {
	if !p.closed {
		p.closed = true
		ops().openS--
	}
	return nil
}

func (p *pstmt) NumInput() int { return -1 }

func (p *pstmt) Exec(args []driver.Value) (driver.Result, error) { return nil, errors.New("not used") }
func (p *pstmt) Query(args []driver.Value) (driver.Rows, error)  { return nil, errors.New("not used") }

func (p *pstmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return p.c.run(ctx, stmt{query: p.q, args: args, prepared: true})
}

func (p *pstmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	r, err := p.c.run(ctx, stmt{query: p.q, args: args, prepared: true})
	if err != nil {
		return nil, err
	}
	r.Close()
	return driver.RowsAffected(0), nil
}

func digest(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

var _ = simutil.Dump
