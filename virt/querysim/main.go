// Command querysim runs generated query methods against a simulated database.
package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/frk/gosql/zzsim/qgen/qrt"
	"github.com/frk/gosql/zzsim/qspec"
	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simdb"
	"github.com/frk/gosql/zzsim/simutil"

	_ "github.com/frk/gosql/zzsim/qgen/p1"
	_ "github.com/frk/gosql/zzsim/qgen/p2"
	_ "github.com/frk/gosql/zzsim/qgen/p3"
	_ "github.com/frk/gosql/zzsim/qgen/p4"
)

var (
	spec   *qspec.Spec
	sess   *simdb.Session
	sample string
	pools  = map[string][]*qspec.Query{}
)

func die(err error) {
	fmt.Fprintln(os.Stderr, "querysim:", err)
	os.Exit(4)
}

func main() {
	w := simutil.NewWorker("querysim")
	b, err := os.ReadFile(w.Params["spec"])
	if err != nil {
		die(err)
	}
	if err := json.Unmarshal(b, &spec); err != nil {
		die(err)
	}
	for _, q := range spec.Queries {
		if qrt.Entries[q.Key()] == nil {
			die(fmt.Errorf("%s is not registered", q.Key()))
		}
		pools["all"] = append(pools["all"], q)
		if q.Handler != "" {
			pools["handler"] = append(pools["handler"], q)
		}
		if q.CtxArg || q.CtxField != "" {
			pools["ctx"] = append(pools["ctx"], q)
		}
		if q.Rel.Form == "slice" && (q.Kind == "insert" || q.Kind == "update") {
			pools["batch"] = append(pools["batch"], q)
		}
		if o := q.Out(); o != nil && (o.Form == "slice" || o.Form == "iter" || o.Form == "iface") {
			pools["rows"] = append(pools["rows"], q)
		}
	}
	// each worker has a database of its own
	adm, err := simdb.Open(w.Params["dsn"] + " dbname=postgres")
	if err != nil {
		die(err)
	}
	db := fmt.Sprintf("w%d", os.Getpid())
	for i := 0; ; i++ {
		err = adm.Exec(fmt.Sprintf("CREATE DATABASE %s TEMPLATE %s", db, w.Params["db"]))
		if err == nil {
			break
		}
		if i > 50 {
			die(err)
		}
	}
	adm.Close()
	if sess, err = simdb.Open(w.Params["dsn"] + " dbname=" + db); err != nil {
		die(err)
	}
	// All runs happen in one transaction, each takes back what it did.
	sess.Must("SET client_min_messages = error; BEGIN; TRUNCATE acct, pair, log, child, zs.odd")
	w.Run = run
	if w.Check == "C08q" {
		w.Run = runConc
	}
	w.Sample = func() string { return sample }
	w.Main()
}

// pool of the queries that a mode prefers.
func pickQuery(prop string) *qspec.Query {
	p := "all"
	if !rt.Chance(150) {
		switch prop {
		case "C05":
			p = "handler"
		case "C06":
			p = "ctx"
		case "C07":
			p = "batch"
		case "C03":
			p = "rows"
		}
	}
	return pools[p][rt.Draw(len(pools[p]))]
}

// world draws the initial contents of the tables.
func world() string {
	var b strings.Builder
	// Emptying a table that this transaction already emptied is cheap.
	b.WriteString("TRUNCATE acct, pair, log, child, zs.odd; SAVEPOINT run; ")
	ins := func(table string, fixed map[string]string) {
		t := spec.Tables[table]
		var cols, vals []string
		for _, c := range t.Cols {
			v, ok := fixed[c.Name]
			if !ok {
				if c.Default && rt.Bool() {
					continue
				}
				v = drawSQL(table, &c)
			}
			cols = append(cols, `"`+c.Name+`"`)
			vals = append(vals, v)
		}
		if len(cols) == 0 {
			fmt.Fprintf(&b, "INSERT INTO %s DEFAULT VALUES;\n", t.FullName())
			return
		}
		fmt.Fprintf(&b, "INSERT INTO %s (%s) VALUES (%s);\n", t.FullName(), strings.Join(cols, ", "), strings.Join(vals, ", "))
	}
	for i, n := 1, rt.Draw(6); i <= n; i++ {
		ins("acct", map[string]string{"id": fmt.Sprint(i), "name": fmt.Sprintf("'nm%d'", i)})
	}
	for a := 1; a <= 3; a++ {
		for _, k := range []string{"p", "q"} {
			if rt.Bool() {
				ins("pair", map[string]string{"a": fmt.Sprint(a), "b": "'" + k + "'"})
			}
		}
	}
	for n := rt.Draw(5); n > 0; n-- {
		ins("log", nil)
	}
	for i, n := 1, rt.Draw(5); i <= n; i++ {
		ins("odd", map[string]string{"ID": fmt.Sprint(i), "Code": fmt.Sprintf("'%s%d'", rt.Pick([]string{"cd", "CD", "Cd"}), i)})
	}
	for i, n := 1, rt.Draw(5); i <= n; i++ {
		ins("child", map[string]string{"id": fmt.Sprint(i)})
	}
	return b.String()
}

// event is something that the generated code did for user code to see.
type event struct {
	kind  string // after, iter
	ptr   interface{}
	canon string
	scans int
}

// held is a record that the caller keeps.
type held struct {
	what  string
	canon func() string
	was   string
}

type state struct {
	w      *simutil.Worker
	sim    *simdb.Sim
	db     *sql.DB
	tx     *sql.Tx
	token  int
	held   []held
	past   []*op
	stop   bool // something is wrong that belongs to another property
	v      *simutil.Violation
	opN    int
	notesV []string
}

// fail records that something is wrong. A run of one property's check stops
// silently at what other properties are about.
func (s *state) fail(props, class, format string, args ...interface{}) {
	if s.v != nil || s.stop {
		return
	}
	if strings.Contains(" "+props+" ", " "+s.w.Property+" ") {
		s.v = simutil.Violate(class, format, args...)
		return
	}
	s.stop = true
	rt.Hit("run.stopped." + strings.ReplaceAll(props, " ", ","))
}

func (s *state) done() bool { return s.v != nil || s.stop }

const endRun = "ROLLBACK TO SAVEPOINT run; RELEASE SAVEPOINT run"

func run(w *simutil.Worker) (v *simutil.Violation) {
	s := &state{w: w, sim: &simdb.Sim{S: sess}}
	sess.Must(world())
	defer func() {
		qrt.OnAfterScan = nil
		if r := recover(); r != nil {
			sess.Exec(endRun)
			panic(r)
		}
		sess.Must(endRun)
	}()
	s.db = sql.OpenDB(s.sim.Connector())
	s.db.SetMaxOpenConns(1)
	noIdle := rt.Chance(150)
	if noIdle {
		s.db.SetMaxIdleConns(-1)
	}
	defer s.db.Close()

	calm := rt.Chance(300) // a run without faults
	n := rt.Weighted(5, 4, 3, 2) + 1
	for i := 0; i < n && !s.done(); i++ {
		s.opN = i
		s.sim.Plan = simdb.Plan{}
		if s.tx == nil && rt.Chance(200) {
			tx, err := s.db.BeginTx(context.Background(), nil)
			if err != nil {
				panic(err)
			}
			s.tx = tx
			rt.Logf("begin")
		}
		s.step(calm, noIdle)
		if s.done() {
			break
		}
		if s.tx != nil && rt.Bool() {
			s.endTx()
		}
	}
	if s.tx != nil {
		s.endTx()
	}
	// whatever was delivered is still what it was
	for _, h := range s.held {
		if s.done() {
			break
		}
		if now := h.canon(); now != h.was {
			s.fail("C03", "changed", "%s was %s when it was delivered and is %s at the end of the run", h.what, h.was, now)
		}
	}
	w.Evals += n
	if s.v != nil {
		return s.v
	}
	return nil
}

func (s *state) endTx() {
	s.sim.Plan = simdb.Plan{}
	var err error
	if rt.Bool() || s.sim.Aborted {
		err = s.tx.Rollback()
		rt.Logf("rollback: %v", err)
	} else {
		err = s.tx.Commit()
		rt.Logf("commit: %v", err)
	}
	s.tx = nil
	if !s.done() && s.sim.OpenRows.Load() == 0 && err != nil {
		panic(fmt.Sprintf("ending the transaction: %v", err))
	}
}

func keys(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}
