package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql"
	"github.com/frk/gosql/zzsim/qspec"
	"github.com/frk/gosql/zzsim/rt"
)

// A filterModel builds what a filter's clauses mean, from the documented
// effects of its operations.
type filterModel struct {
	sql  strings.Builder
	term bool // the last thing is a term
}

func (m *filterModel) pred(s string) {
	m.join(" AND ")
	m.sql.WriteString(s)
	m.term = true
}

func (m *filterModel) join(op string) {
	if m.term {
		m.sql.WriteString(op)
		m.term = false
	}
}

func (m *filterModel) open()  { m.sql.WriteString("("); m.term = false }
func (m *filterModel) close() { m.sql.WriteString(")"); m.term = true }

type genFilter struct {
	o  *op
	q  *query
	ft *qspec.FilterType
	f  reflect.Value
	m  filterModel
	n  int
}

// drawGenFilter draws a filter that is made with the methods of a generated
// filter type, by expressions in FQL, or both.
func (o *op) drawGenFilter() {
	q := o.query
	t := &genFilter{o: o, q: q, ft: q.FT, f: reflect.ValueOf(o.e.NewFilter())}
	t.f.MethodByName("Init").Call(nil)
	for t.n = rt.Draw(5); t.n > 0; {
		t.step(0)
	}
	ref := t.m.sql.String()
	if ref != "" {
		ref = " WHERE " + ref
	}
	limited := q.LimitField != "" || q.OffsetField != "" || q.LimitDir > 0 || q.OffsetDir > 0
	tail := ""
	count := q.Kind == "count" || q.Kind == "exists" || q.Kind == "notexists"
	if (q.Kind == "select" && q.Order == "" || count) && len(spec.Tables[q.Table].PK) > 0 && (limited || rt.Chance(300)) {
		tail = t.order()
		if !limited && rt.Bool() {
			n := int64(rt.Range(1, 3))
			t.call("Limit", n)
			if q.Rel.Form != "one" {
				tail += fmt.Sprintf(" LIMIT %d", n)
			}
			switch rt.Draw(3) {
			case 1:
				k := int64(rt.Draw(3))
				t.call("Offset", k)
				tail += fmt.Sprintf(" OFFSET %d", k)
			case 2:
				k := int64(rt.Draw(3))
				t.call("Page", k)
				if k > 0 {
					tail += fmt.Sprintf(" OFFSET %d", n*(k-1))
				}
			}
		}
	}
	rt.Hit("filter.generated")
	var flt gosql.Filter
	if count {
		flt = t.f.MethodByName("CountFilter").Call(nil)[0].Interface().(gosql.Filter)
	} else {
		ref += tail
		flt = t.f.MethodByName("Filter").Call(nil)[0].Interface().(gosql.Filter)
	}
	o.fRef, o.fText = ref, flt.ToSQL
}

// bad notes that a filter is wrong; the next execution reports it.
func (o *op) bad(class, format string, args ...interface{}) {
	if o.badClass == "" {
		o.badClass, o.badText = class, fmt.Sprintf(format, args...)
	}
}

func (t *genFilter) call(name string, args ...interface{}) {
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	t.f.MethodByName(name).Call(in)
}

// step is one operation.
func (t *genFilter) step(depth int) {
	t.n--
	switch k := rt.Draw(12); {
	case k == 6 && t.m.term && t.n >= 0:
		t.m.join(" OR ")
		t.logic("Or", nil)
		t.term()
	case k == 7:
		t.m.join(" AND ")
		t.logic("And", nil)
		t.term()
	case (k == 8 || k == 9) && depth < 2:
		name, op := "And", " AND "
		if k == 9 {
			name, op = "Or", " OR "
		}
		t.m.join(op)
		t.m.open()
		t.logic(name, func() {
			t.term()
			for n := rt.Draw(3); n > 0; n-- {
				t.step(depth + 1)
			}
		})
		t.m.close()
	case k == 10 || k == 11:
		t.fql()
	default:
		t.term()
	}
}

func (t *genFilter) logic(name string, nest func()) {
	m := t.f.MethodByName(name)
	ft := m.Type().In(0)
	fn := reflect.Zero(ft)
	if nest != nil {
		fn = reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
			if args[0].Pointer() != t.f.Pointer() {
				t.o.bad("filter-nest", "%s.%s.%s hands another filter to the function for the nested conditions", t.q.Pkg, t.ft.Name, name)
			}
			nest()
			return nil
		})
	}
	if res := m.Call([]reflect.Value{fn}); res[0].Pointer() != t.f.Pointer() {
		t.o.bad("filter-chain", "%s.%s.%s returns another filter", t.q.Pkg, t.ft.Name, name)
	}
}

// term is one condition.
func (t *genFilter) term() {
	q := t.q
	if t.ft.TS != "" && rt.Chance(200) {
		words := []string{}
		for n := rt.Range(1, 3); n > 0; n-- {
			words = append(words, rt.Pick([]string{"nm1", "a", "b", "x", "sp", "line", "null"}))
		}
		sep := rt.Pick([]string{" ", " ", "  "})
		t.call("TextSearch", rt.Pick([]string{"", " "})+strings.Join(words, sep))
		t.m.pred(t.ft.TS + " @@ to_tsquery('simple', '" + strings.Join(words, ":* & ") + ":*')")
		rt.Hit("filter.textsearch")
		return
	}
	if rt.Chance(150) { // lists
		tab := spec.Tables[q.Table]
		c := tab.Cols[rt.Draw(len(tab.Cols))]
		form := rt.Pick([]string{"In", "Any"})
		n := rt.Range(1, 4)
		if form == "Any" {
			n = rt.Draw(4)
		}
		var lits []string
		each := func(v reflect.Value) {
			drawGo(v, q.Table, c.Name, c.CT)
			lits = append(lits, lit(v, c.CT, false))
		}
		switch c.CT {
		case "int4":
			s := make([]int, n)
			for i := range s {
				each(reflect.ValueOf(&s[i]).Elem())
			}
			t.call("Col"+form+"Ints", q.Qual(c.Name), s)
		case "int8":
			s := make([]int64, n)
			for i := range s {
				each(reflect.ValueOf(&s[i]).Elem())
			}
			t.call("Col"+form+"Int64s", q.Qual(c.Name), s)
		case "int2":
			s := make([]int16, n)
			for i := range s {
				each(reflect.ValueOf(&s[i]).Elem())
			}
			t.call("Col"+form+"Int16s", q.Qual(c.Name), s)
		case "text":
			s := make([]string, n)
			for i := range s {
				each(reflect.ValueOf(&s[i]).Elem())
			}
			if rt.Bool() {
				t.call("Col", q.Qual(c.Name), rt.Pick([]string{strings.ToUpper(form), strings.ToLower(form)}), s)
			} else {
				t.call("Col"+form+"Strings", q.Qual(c.Name), s)
			}
		}
		if lits != nil {
			t.m.pred(q.Qual(c.Name) + " IN (" + strings.Join(lits, ", ") + ")")
			rt.Hit("filter.list")
			return
		}
		if form == "Any" && n == 0 && (c.CT == "int4" || c.CT == "int8" || c.CT == "int2" || c.CT == "text") {
			t.m.pred(q.Qual(c.Name) + " = ANY('{}'::" + c.CT + "[])")
			return
		}
	}
	f := t.ft.Fields[rt.Draw(len(t.ft.Fields))]
	m := t.f.MethodByName(f.Method)
	v := reflect.New(m.Type().In(1)).Elem()
	drawGo(v, q.Table, f.Col, f.CT)
	if f.CT == `"Mood"` && v.Kind() == reflect.String && v.String() == "" {
		v.SetString("ok")
	}
	col := q.Qual(f.Col)
	op := rt.Pick([]string{"=", "=", "<>", "<", ">", "<=", ">="})
	if f.CT == "text" && rt.Chance(150) {
		op = rt.Pick([]string{"LIKE", "ILIKE"})
	}
	if v.Type() == reflect.TypeOf(true) {
		op = rt.Pick([]string{"=", "<>"})
	}
	if res := m.Call([]reflect.Value{reflect.ValueOf(op), v}); res[0].Pointer() != t.f.Pointer() {
		t.o.bad("filter-chain", "%s.%s.%s returns another filter", q.Pkg, t.ft.Name, f.Method)
	}
	if v.Type() == reflect.TypeOf(true) {
		t.m.pred(isBool(col, op, v.Bool()))
		return
	}
	t.m.pred(col + " " + op + " " + lit(v, f.CT, false))
}

func isBool(col, op string, b bool) string {
	not := ""
	if op == "<>" {
		not = "NOT "
	}
	return fmt.Sprintf("%s IS %s%t", col, not, b)
}

// fql unmarshals an expression.
func (t *genFilter) fql() {
	var fields []*qspec.FilterField
	for _, f := range t.ft.Fields {
		if f.Key != "" && fqlKey(f.Key) {
			fields = append(fields, f)
		}
	}
	if len(fields) == 0 {
		t.term()
		return
	}
	text := ""
	open := 0
	joined := false // by the text, not by the filter
	join := func() {
		if joined {
			return
		}
		t.m.join(" AND ")
	}
	for n := rt.Range(1, 4); n > 0; n-- {
		if open < 2 && rt.Chance(200) {
			join()
			joined = true
			text += "("
			t.m.open()
			open++
		}
		f := fields[rt.Draw(len(fields))]
		col := t.q.Qual(f.Col)
		val, sql := t.value(f)
		op, o := "=", ":"
		ops := [][2]string{{"=", ":"}, {"<>", ":!"}}
		if sql != "" && val != "true" && val != "false" {
			ops = append(ops, [][2]string{{">", ":>"}, {"<", ":<"}, {">=", ":>="}, {"<=", ":<="}}...)
		}
		p := rt.Pick(ops)
		op, o = p[0], p[1]
		join()
		switch {
		case sql == "":
			t.m.pred(col + map[string]string{"=": " IS NULL", "<>": " IS NOT NULL"}[op])
		case val == "true" || val == "false":
			t.m.pred(isBool(col, op, val == "true"))
		default:
			t.m.pred(col + " " + op + " " + sql)
		}
		text += f.Key + o + val
		joined = false
		for open > 0 && rt.Chance(400) {
			text += ")"
			t.m.close()
			open--
		}
		if n > 1 {
			sep := rt.Pick([]string{";", ","})
			text += sep
			t.m.join(map[string]string{";": " AND ", ",": " OR "}[sep])
			joined = true
		}
	}
	for ; open > 0; open-- {
		text += ")"
		t.m.close()
	}
	if res := t.f.MethodByName("UnmarshalFQL").Call([]reflect.Value{reflect.ValueOf(text)}); !res[0].IsNil() {
		t.o.bad("filter-fql", "%s.%s refuses %q: %v", t.q.Pkg, t.ft.Name, text, res[0].Interface())
	}
	rt.Hit("filter.fql")
}

// value is a value as it is written in an expression, and in SQL ("" for NULL).
func (t *genFilter) value(f *qspec.FilterField) (string, string) {
	if rt.Chance(150) {
		return "null", ""
	}
	switch f.CT {
	case "int4", "int8", "int2":
		var n int64
		v := reflect.ValueOf(&n).Elem()
		drawGo(v, t.q.Table, f.Col, f.CT)
		text := strconv.FormatInt(n, 10)
		if f.Conv {
			n++
			rt.Hit("filter.convert")
		}
		return text, strconv.FormatInt(n, 10) + "::int8"
	case "bool":
		b := strconv.FormatBool(rt.Bool())
		return b, b
	case "float8", "numeric":
		x := rt.Pick(floats)
		if math.IsNaN(x) || math.IsInf(x, 0) || f.CT == "numeric" {
			x = rt.Pick([]float64{1.5, 2.5, -0.25, 2})
		}
		text := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.Contains(text, ".") {
			text += ".0"
		}
		return text, typed(text, f.CT)
	case "timestamptz":
		n := int64(rt.Pick(times).Unix())
		return "d" + strconv.FormatInt(n, 10), typed(time.Unix(n, 0).UTC().Format("2006-01-02 15:04:05")+"+00", f.CT)
	}
	s := ""
	v := reflect.ValueOf(&s).Elem()
	drawGo(v, t.q.Table, f.Col, f.CT)
	if f.CT == "timestamp" {
		s = "2020-01-02 03:04:05"
	}
	if f.CT == `"Mood"` && s == "" {
		s = "ok"
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`, typed(s, f.CT)
}

func fqlKey(k string) bool {
	for i, r := range k {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r >= '0' && r <= '9' || r == '.')) {
			return false
		}
	}
	return true
}

// order draws the order, which is total.
func (t *genFilter) order() string {
	var by []string
	one := func(f *qspec.FilterField) {
		desc := rt.Bool()
		key, dir := f.Key, ""
		if desc {
			key, dir = "-"+key, " DESC"
		}
		if t.ft.V2 && f.Nullable {
			dir += " NULLS LAST"
		}
		by = append(by, t.q.Qual(f.Col)+dir)
		text := key
		switch rt.Draw(4) {
		case 1:
			text += ","
		case 2:
			text = "," + text
		}
		if res := t.f.MethodByName("UnmarshalSort").Call([]reflect.Value{reflect.ValueOf(text)}); !res[0].IsNil() {
			t.o.bad("filter-sort", "%s.%s refuses %q: %v", t.q.Pkg, t.ft.Name, text, res[0].Interface())
		}
		rt.Hit("filter.sort")
	}
	for _, f := range t.ft.Fields {
		if f.Key != "" && rt.Chance(250) {
			one(f)
		}
	}
	for _, k := range spec.Tables[t.q.Table].PK {
		desc, nf := rt.Bool(), rt.Bool()
		s := t.q.Qual(k)
		t.call("OrderBy", s, desc, nf)
		if desc {
			s += " DESC"
		}
		by = append(by, s)
	}
	return " ORDER BY " + strings.Join(by, ", ")
}
