package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/frk/gosql/zzsim/qspec"
	"github.com/frk/gosql/zzsim/simdb"
	"github.com/lib/pq"
)

// A ref is the declared outcome of an execution: what the description of the
// query type and the value of the query say, not what the tool generated.
type ref struct {
	sql     []string
	code    map[string]bool // SQLSTATEs of the failure, nil if it succeeds
	either  bool            // whether it fails is up to the database
	anyErr  bool            // an empty list: either refused or without effect
	rows    [][]*string
	n       int64
	post    string
	leaves  []*qspec.Leaf // of the columns of rows
	ordered bool          // the order of rows is determined
	loose   bool          // any one of the rows is right
}

func (q *query) tableSQL() string {
	s := spec.Tables[q.Table].FullName()
	if q.Alias != "" {
		s += " AS " + q.Alias
	}
	return s
}

type query struct {
	*qspec.Query
	rv reflect.Value // the query struct
}

// recValues are the input records.
func (q *query) inputs() []reflect.Value {
	f := q.rv.FieldByName(q.Rel.Field)
	var out []reflect.Value
	deref := func(v reflect.Value) {
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		out = append(out, v)
	}
	if q.Rel.Form == "slice" {
		for i := 0; i < f.Len(); i++ {
			deref(f.Index(i))
		}
	} else {
		deref(f)
	}
	return out
}

// written are the columns that are written.
func (q *query) written() []*qspec.Leaf {
	var out []*qspec.Leaf
	for _, l := range spec.Recs[q.Rel.Rec].Leaves {
		no := l.NoInsert
		if q.Kind == "update" {
			no = l.NoUpdate
		}
		if !no || qspec.Contains(q.Force, l.Col) {
			out = append(out, l)
		}
	}
	return out
}

func (q *query) value(rec reflect.Value, l *qspec.Leaf) string {
	if l.Default || qspec.Contains(q.Default, l.Col) {
		return "DEFAULT"
	}
	v, ok := field(rec, l.Path, false)
	if !ok {
		return "NULL::" + l.CT
	}
	return lit(v, l.CT, l.NullZero)
}

// outLeaves are the leaves of the output's record that are read.
func (q *query) outLeaves() []*qspec.Leaf {
	o := q.Out()
	if o == nil || o.Rec == "" {
		return nil
	}
	var out []*qspec.Leaf
	for _, l := range spec.Recs[o.Rec].Leaves {
		switch {
		case q.Result == nil && q.Return != nil:
			if qspec.Contains(q.Return, l.Col) && (!l.NoRead || qspec.Contains(q.Force, l.Col)) {
				out = append(out, l)
			}
		case !l.NoRead || qspec.Contains(q.Force, l.Col):
			out = append(out, l)
		}
	}
	return out
}

func (q *query) outCols(leaves []*qspec.Leaf) string {
	var s []string
	for _, l := range leaves {
		x := q.Qual(l.Col)
		if l.UseCo {
			x = "coalesce(" + x + ", " + l.Coalesce + ")"
		}
		s = append(s, x+"::text")
	}
	if len(s) == 0 {
		return "1"
	}
	return strings.Join(s, ", ")
}

// condSQL renders the conditions; empty tells whether a list is empty.
func condSQL(conds []*qspec.Cond, v reflect.Value, empty *bool) string {
	var b strings.Builder
	for i, c := range conds {
		if i > 0 {
			if c.Or {
				b.WriteString(" OR ")
			} else {
				b.WriteString(" AND ")
			}
		}
		switch c.Kind {
		case "fixed":
			b.WriteString(c.SQL)
		case "field":
			fmt.Fprintf(&b, "%s %s", c.L, lit(v.FieldByName(c.Field), c.CT, false))
		case "any", "func":
			fmt.Fprintf(&b, "%s%s%s", c.L, lit(v.FieldByName(c.Field), c.CT, false), c.R)
		case "in":
			f := v.FieldByName(c.Field)
			var s []string
			for j := 0; j < f.Len(); j++ {
				s = append(s, lit(f.Index(j), c.CT, false))
			}
			if len(s) == 0 {
				*empty = true
				if strings.HasSuffix(c.L, "NOT IN") {
					b.WriteString("true")
				} else {
					b.WriteString("false")
				}
				continue
			}
			fmt.Fprintf(&b, "%s (%s)", c.L, strings.Join(s, ", "))
		case "between":
			f := v.FieldByName(c.Field)
			x, y := c.XS, c.YS
			if c.X != "" {
				x = lit(f.FieldByName(c.X), c.CT, false)
			}
			if c.Y != "" {
				y = lit(f.FieldByName(c.Y), c.CT, false)
			}
			fmt.Fprintf(&b, "%s %s AND %s", c.L, x, y)
		case "nest":
			fmt.Fprintf(&b, "(%s)", condSQL(c.Sub, v.FieldByName(c.Field), empty))
		default:
			panic("cond " + c.Kind)
		}
	}
	return b.String()
}

// statements builds the reference statements; those of a batch update are
// executed one after the other.
func (q *query) statements(filterText string) (*ref, []string) {
	r := &ref{leaves: q.outLeaves()}
	ret := "\nRETURNING " + q.outCols(r.leaves)
	where := ""
	if q.Where != nil {
		where = "\nWHERE " + condSQL(q.Where, q.rv.FieldByName(q.WhereField), &r.anyErr)
	}
	if q.Filter != "" {
		where = "\n" + filterText
	}
	switch q.Kind {
	case "insert":
		cols := q.written()
		var names, rows []string
		for _, l := range cols {
			names = append(names, `"`+l.Col+`"`)
		}
		for _, rec := range q.inputs() {
			var vals []string
			for _, l := range cols {
				vals = append(vals, q.value(rec, l))
			}
			rows = append(rows, "("+strings.Join(vals, ", ")+")")
		}
		if len(rows) == 0 {
			r.anyErr = true
			return r, nil
		}
		over := ""
		if q.Override != "" {
			over = " OVERRIDING " + strings.ToUpper(q.Override) + " VALUE"
		}
		s := fmt.Sprintf("INSERT INTO %s (%s)%s VALUES\n%s", q.tableSQL(), strings.Join(names, ", "), over, strings.Join(rows, ",\n"))
		if c := q.Conflict; c != nil {
			s += "\nON CONFLICT"
			if c.Target != "" {
				s += " " + c.Target
			}
			if c.Update == nil {
				s += " DO NOTHING"
			} else {
				var set []string
				for _, u := range c.Update {
					set = append(set, fmt.Sprintf(`"%s" = EXCLUDED."%s"`, u, u))
				}
				s += " DO UPDATE SET " + strings.Join(set, ", ")
			}
		}
		r.ordered = true
		return r, []string{s + ret}
	case "update":
		var stmts []string
		t := spec.Tables[q.Table]
		for _, rec := range q.inputs() {
			var set, by []string
			for _, l := range q.written() {
				set = append(set, fmt.Sprintf(`"%s" = %s`, l.Col, q.value(rec, l)))
			}
			w := where
			if q.Where == nil && q.Filter == "" && !q.All {
				for _, l := range spec.Recs[q.Rel.Rec].Leaves {
					if qspec.Contains(t.PK, l.Col) {
						v, _ := field(rec, l.Path, false)
						by = append(by, q.Qual(l.Col)+" = "+lit(v, l.CT, false))
					}
				}
				w = "\nWHERE " + strings.Join(by, " AND ")
			}
			s := fmt.Sprintf("UPDATE %s SET %s", q.tableSQL(), strings.Join(set, ", "))
			if q.Join != "" {
				s += "\nFROM " + q.Join
			}
			stmts = append(stmts, s+w+ret)
		}
		if len(stmts) == 0 {
			r.anyErr = true
		}
		return r, stmts
	case "delete":
		s := "DELETE FROM " + q.tableSQL()
		if q.Join != "" {
			s += "\nUSING " + q.Join
		}
		return r, []string{s + where + ret}
	}
	from := " FROM " + q.tableSQL()
	if q.Join != "" {
		from += "\n" + q.Join
	}
	switch q.Kind {
	case "count":
		return r, []string{"SELECT count(1)::text" + from + where}
	case "exists":
		return r, []string{"SELECT EXISTS(SELECT 1" + from + where + ")::text"}
	case "notexists":
		return r, []string{"SELECT (NOT EXISTS(SELECT 1" + from + where + "))::text"}
	}
	s := "SELECT " + q.outCols(r.leaves) + from + where
	if q.Order != "" {
		s += "\nORDER BY " + q.Order
		r.ordered = q.TotalOrder
	}
	if strings.Contains(filterText, "ORDER BY") {
		r.ordered = true
	}
	if q.Rel.Form == "one" {
		if r.ordered || q.Where != nil {
			s += "\nLIMIT 1"
		} else {
			r.loose = true
		}
	}
	num := func(field string, def, dir int) (int64, bool) {
		switch {
		case dir > 0:
			return int64(dir), true
		case field != "":
			n := q.rv.FieldByName(field).Int()
			if n == 0 {
				n = int64(def)
			}
			return n, true
		}
		return 0, false
	}
	if n, ok := num(q.LimitField, q.LimitDef, q.LimitDir); ok {
		s += fmt.Sprintf("\nLIMIT %d", n)
	}
	if n, ok := num(q.OffsetField, q.OffsetDef, q.OffsetDir); ok {
		s += fmt.Sprintf("\nOFFSET %d", n)
	}
	return r, []string{s}
}

const dumpSQL = `SELECT 'acct', coalesce(string_agg(t::text, E'\n' ORDER BY t::text), '') FROM acct t UNION ALL
SELECT 'pair', coalesce(string_agg(t::text, E'\n' ORDER BY t::text), '') FROM pair t UNION ALL
SELECT 'log', coalesce(string_agg(t::text, E'\n' ORDER BY t::text), '') FROM log t UNION ALL
SELECT 'odd', coalesce(string_agg(t::text, E'\n' ORDER BY t::text), '') FROM zs.odd t UNION ALL
SELECT 'child', coalesce(string_agg(t::text, E'\n' ORDER BY t::text), '') FROM child t`

// dump is the contents of all tables.
func dump() string {
	rows, err := sess.Text(dumpSQL)
	if err != nil {
		panic(simdb.Broken{Err: err})
	}
	var b strings.Builder
	for _, r := range rows {
		fmt.Fprintf(&b, "%s:\n%s\n", *r[0], *r[1])
	}
	return b.String()
}

const seqSQL = `SELECT setval('acct_id_seq', 100, true), setval('child_id_seq', 200, true)`

// reference executes the declared effect and takes it back.
func (q *query) reference(filterText, pre string) *ref {
	r, stmts := q.statements(filterText)
	r.sql = stmts
	r.post = pre
	if len(stmts) == 0 {
		return r
	}
	sess.Must(seqSQL + "; SAVEPOINT ref")
	write := q.Kind == "insert" || q.Kind == "update" || q.Kind == "delete"
	try := func(order []int) (rows [][]*string, code string) {
		sess.Must("ROLLBACK TO SAVEPOINT ref")
		byStmt := make([][][]*string, len(stmts))
		for _, i := range order {
			res, err := sess.Text(stmts[i])
			if err != nil {
				var pe *pq.Error
				if !errors.As(err, &pe) {
					panic(simdb.Broken{Err: err})
				}
				return nil, string(pe.Code)
			}
			byStmt[i] = res
		}
		for _, res := range byStmt {
			rows = append(rows, res...)
		}
		if write {
			r.post = dump()
		}
		return rows, ""
	}
	// In which order a batch changes the rows is up to the database.
	orders := [][]int{upTo(len(stmts))}
	if len(stmts) > 1 {
		orders = append(orders, reversed(orders[0]))
	}
	fails, ok := map[string]bool{}, 0
	for i := 0; i < len(orders); i++ {
		rows, code := try(orders[i])
		if code != "" {
			fails[code] = true
			if len(orders) == 2 && len(stmts) > 2 && len(stmts) <= 5 {
				orders = append(orders, permutations(len(stmts))...)
			}
			continue
		}
		r.rows = rows
		ok++
	}
	if len(fails) > 0 {
		r.code = fails
		r.either = ok > 0
	}
	if ok == 0 {
		r.post = pre
	}
	r.n = int64(len(r.rows))
	sess.Must("ROLLBACK TO SAVEPOINT ref; RELEASE SAVEPOINT ref; " + seqSQL)
	return r
}

func upTo(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func reversed(s []int) []int {
	var out []int
	for i := len(s) - 1; i >= 0; i-- {
		out = append(out, s[i])
	}
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			x := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, x)
		}
	}
	return out
}

func (r *ref) scalar() string {
	if len(r.rows) == 0 || len(r.rows[0]) == 0 || r.rows[0][0] == nil {
		return "?"
	}
	return *r.rows[0][0]
}

// want renders the rows as records of the given type.
func (r *ref) want(rec reflect.Type) []string {
	var out []string
	for _, row := range r.rows {
		out = append(out, canonRow(row, rec, r.leaves))
	}
	return out
}

func sorted(s []string) []string {
	out := append([]string(nil), s...)
	sort.Strings(out)
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func list(s []string) string {
	if len(s) == 0 {
		return "(none)"
	}
	var b strings.Builder
	for i, x := range s {
		if i == 8 {
			b.WriteString(" ...")
			break
		}
		b.WriteString("[" + strconv.Itoa(i) + "] " + x)
	}
	return b.String()
}
