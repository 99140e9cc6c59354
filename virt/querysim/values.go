package main

import (
	"database/sql"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql/zzsim/qgen/qrt"
	"github.com/frk/gosql/zzsim/qspec"
	"github.com/frk/gosql/zzsim/rt"
)

var texts = []string{"a", "", "nm1", "it's", `back\slash`, `quo"te`, "NULL", "null", "{a,b}", "%x_", "żółć", "x, y", " sp ", "0", "line\nbreak", "$1", "b"}
var plain = []string{"a", "b", "nm", "x", "zz9"}
var patterns = []string{"a", "^n", "a.*", "1$", "x"}
var likes = []string{"a", "%", "nm%", "_", "%a%", "x%y"}
var smallInts = []int64{1, 0, 2, 3, 5, -3, 12, 999}
var floats = []float64{0.25, 0, -1, 1.5, 2, 100.75}
var uuids = []string{"5b1c0000-0000-0000-0000-0000000000aa", "00000000-0000-0000-0000-000000000000", "a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11"}
var times = []time.Time{
	time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC),
	time.Date(1999, 12, 31, 23, 59, 59, 999999000, time.FixedZone("", -5*3600)),
	time.Date(2024, 7, 1, 12, 0, 0, 1000, time.FixedZone("", 5*3600+1800)),
	time.Date(2024, 10, 27, 0, 30, 0, 500000000, time.UTC),
}

// drawInt draws a value for an integer column.
func drawInt(table, col, ct string) int64 {
	switch col {
	case "id", "acct_id", "ID":
		return int64(rt.Range(1, 7))
	case "k", "a":
		return int64(rt.Range(1, 4))
	case "n":
		if rt.Chance(40) {
			return 1000 // violates a check constraint
		}
	}
	if ct == "int8" && rt.Chance(150) {
		return 9007199254740993
	}
	return rt.Pick(smallInts)
}

func drawText(table, col string) string {
	switch col {
	case "name":
		return fmt.Sprintf("nm%d", rt.Range(1, 12))
	case "b":
		return rt.Pick([]string{"p", "q", "r"})
	case "Code":
		return fmt.Sprintf("%s%d", rt.Pick([]string{"cd", "CD", "Cd"}), rt.Range(1, 9))
	case "mood":
		if rt.Chance(20) {
			return rt.Pick([]string{"happy", ""}) // no such labels
		}
		return rt.Pick([]string{"sad", "ok", "Happy"})
	}
	return rt.Pick(texts)
}

func drawDoc() qrt.Doc {
	d := qrt.Doc{A: int(rt.Pick(smallInts)), B: rt.Pick(texts)}
	for n := rt.Draw(3); n > 0; n-- {
		d.C = append(d.C, rt.Draw(5))
	}
	if rt.Bool() {
		d.D = map[string]int{"k<": rt.Draw(9), "m": 1}
	}
	return d
}

// drawGo sets v to a drawn value for a column.
func drawGo(v reflect.Value, table, col, ct string) {
	if v.Kind() == reflect.Ptr && v.Type() != reflect.TypeOf((*time.Time)(nil)) {
		if rt.Chance(250) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		drawGo(p.Elem(), table, col, ct)
		v.Set(p)
		return
	}
	switch x := v.Addr().Interface().(type) {
	case *sql.NullString:
		*x = sql.NullString{}
		if !rt.Chance(300) {
			*x = sql.NullString{String: drawText(table, col), Valid: true}
		}
		return
	case *sql.NullInt64:
		*x = sql.NullInt64{}
		if !rt.Chance(300) {
			*x = sql.NullInt64{Int64: drawInt(table, col, ct), Valid: true}
		}
		return
	case *sql.NullBool:
		*x = sql.NullBool{}
		if !rt.Chance(300) {
			*x = sql.NullBool{Bool: rt.Bool(), Valid: true}
		}
		return
	case *qrt.Doc:
		*x = drawDoc()
		return
	case *map[string]interface{}:
		if rt.Chance(250) {
			*x = nil
			return
		}
		*x = map[string]interface{}{"A": float64(rt.Draw(9)), "B": rt.Pick(texts), "n": nil}
		return
	case **time.Time:
		if rt.Chance(250) {
			*x = nil
			return
		}
		t := rt.Pick(times)
		*x = &t
		return
	case *time.Time:
		*x = rt.Pick(times)
		return
	case *[16]byte:
		*x = parseUUID(rt.Pick(uuids))
		return
	case *[]string:
		*x = nil
		if !rt.Chance(150) {
			*x = []string{}
			for n := rt.Draw(4); n > 0; n-- {
				*x = append(*x, rt.Pick(texts))
			}
		}
		return
	case *[][]byte:
		*x = nil
		if !rt.Chance(150) {
			*x = [][]byte{}
			for n := rt.Draw(4); n > 0; n-- {
				*x = append(*x, []byte(rt.Pick(texts)))
			}
		}
		return
	case *[]byte:
		if ct == "bytea" {
			*x = []byte(rt.Pick([]string{"a", "", "\x00\x01\xff'\\", "zz\"", "\\x41"}))
		} else {
			*x = []byte(drawText(table, col))
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		switch ct {
		case "uuid":
			v.SetString(rt.Pick(uuids))
		case "numeric":
			v.SetString(rt.Pick([]string{"1.50", "0.00", "-12345.67", "2.00", "0.25"}))
		case "date":
			v.SetString(rt.Pick([]string{"2020-01-02", "1999-12-31", "2024-02-29", "0044-03-15"}))
		case "bytea":
			v.SetString(rt.Pick([]string{"a", "b", "", "\x00\x01\xff'\\", "zz\"", "\\x41"}))
		default:
			v.SetString(drawText(table, col))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := drawInt(table, col, ct)
		if v.OverflowInt(n) {
			n = 7
		}
		v.SetInt(n)
	case reflect.Bool:
		v.SetBool(rt.Bool())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(rt.Pick(floats))
	case reflect.Slice: // of integers
		if rt.Chance(150) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		s := reflect.MakeSlice(v.Type(), 0, 3)
		for n := rt.Draw(4); n > 0; n-- {
			e := reflect.New(v.Type().Elem()).Elem()
			e.SetInt(rt.Pick(smallInts))
			s = reflect.Append(s, e)
		}
		v.Set(s)
	default:
		panic("drawGo: " + v.Type().String())
	}
}

func parseUUID(s string) (u [16]byte) {
	b, err := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
	if err != nil || len(b) != 16 {
		panic("uuid " + s)
	}
	copy(u[:], b)
	return u
}

func uuidText(u [16]byte) string {
	h := hex.EncodeToString(u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func typed(s, ct string) string { return quote(s) + "::" + ct }

func arrayText(elems []string) string {
	var q []string
	for _, e := range elems {
		q = append(q, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(e)+`"`)
	}
	return "{" + strings.Join(q, ",") + "}"
}

// lit is the SQL literal that a Go value stands for.
func lit(v reflect.Value, ct string, nullZero bool) string {
	null := "NULL::" + ct
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if ct == "jsonb" {
				return "'null'::jsonb"
			}
			return null
		}
		return lit(v.Elem(), ct, false)
	}
	if nullZero && (v.IsZero() || v.Kind() == reflect.Slice && v.Len() == 0) {
		return null
	}
	switch x := v.Interface().(type) {
	case sql.NullString:
		if !x.Valid {
			return null
		}
		return typed(x.String, ct)
	case sql.NullInt64:
		if !x.Valid {
			return null
		}
		return typed(strconv.FormatInt(x.Int64, 10), ct)
	case sql.NullBool:
		if !x.Valid {
			return null
		}
		return typed(strconv.FormatBool(x.Bool), ct)
	case time.Time:
		switch ct {
		case "date":
			return typed(x.Format("2006-01-02"), ct)
		case "timestamp":
			return typed(x.Format("2006-01-02 15:04:05.999999"), ct)
		}
		return typed(x.UTC().Format("2006-01-02 15:04:05.999999")+"+00", ct)
	case [16]byte:
		return typed(uuidText(x), ct)
	case []string:
		if x == nil {
			return null
		}
		return typed(arrayText(x), ct)
	case [][]byte:
		if x == nil {
			return null
		}
		var s []string
		for _, b := range x {
			s = append(s, string(b))
		}
		return typed(arrayText(s), ct)
	case []byte:
		if x == nil {
			return null
		}
		if ct == "bytea" {
			return typed(`\x`+hex.EncodeToString(x), ct)
		}
		return typed(string(x), ct)
	case qrt.Doc, map[string]interface{}:
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		return typed(string(b), ct)
	}
	switch v.Kind() {
	case reflect.String:
		if ct == "bytea" {
			return typed(`\x`+hex.EncodeToString([]byte(v.String())), ct)
		}
		return typed(v.String(), ct)
	case reflect.Bool:
		return typed(strconv.FormatBool(v.Bool()), ct)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return typed(strconv.FormatInt(v.Int(), 10), ct)
	case reflect.Float32, reflect.Float64:
		return typed(strconv.FormatFloat(v.Float(), 'g', -1, 64), ct)
	case reflect.Slice:
		if v.IsNil() {
			return null
		}
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, strconv.FormatInt(v.Index(i).Int(), 10))
		}
		return typed(arrayText(s), ct)
	}
	panic("lit: " + v.Type().String())
}

// canonGo renders a field so that equal contents are equal strings.
func canonGo(v reflect.Value, ct string) string {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "NULL"
		}
		return canonGo(v.Elem(), ct)
	}
	switch x := v.Interface().(type) {
	case sql.NullString:
		if !x.Valid {
			return "NULL"
		}
		return strconv.Quote(x.String)
	case sql.NullInt64:
		if !x.Valid {
			return "NULL"
		}
		return strconv.FormatInt(x.Int64, 10)
	case sql.NullBool:
		if !x.Valid {
			return "NULL"
		}
		return strconv.FormatBool(x.Bool)
	case time.Time:
		return strconv.FormatInt(x.UnixMicro(), 10)
	case [16]byte:
		return strconv.Quote(uuidText(x))
	case []byte:
		return strconv.Quote(string(x))
	case []string:
		return fmt.Sprintf("%q", x)
	case [][]byte:
		var s []string
		for _, b := range x {
			s = append(s, string(b))
		}
		return fmt.Sprintf("%q", s)
	case map[string]interface{}:
		if x == nil {
			return "NULL"
		}
		b, _ := json.Marshal(x)
		return string(b)
	case qrt.Doc:
		b, _ := json.Marshal(x)
		return string(b)
	}
	switch v.Kind() {
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Slice:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, strconv.FormatInt(v.Index(i).Int(), 10))
		}
		return fmt.Sprintf("%q", s)
	}
	panic("canonGo: " + v.Type().String())
}

// canonText is what a field of type t has to render as after reading the
// column value whose text is s (nil: NULL).
func canonText(s *string, t reflect.Type, ct string) string {
	if t.Kind() == reflect.Ptr {
		if s == nil {
			return "NULL"
		}
		if ct == "jsonb" && *s == "null" {
			return "NULL"
		}
		return canonText(s, t.Elem(), ct)
	}
	switch t {
	case reflect.TypeOf(sql.NullString{}), reflect.TypeOf(sql.NullInt64{}), reflect.TypeOf(sql.NullBool{}):
		if s == nil {
			return "NULL"
		}
		if t == reflect.TypeOf(sql.NullString{}) {
			return strconv.Quote(*s)
		}
		return *s
	}
	if s == nil {
		return canonGo(reflect.Zero(t), ct)
	}
	switch ct {
	case "text", "uuid", "varchar", `"Mood"`:
		return strconv.Quote(*s)
	case "int4", "int8", "bool", "int2":
		return *s
	case "date", "timestamp":
		if t.Kind() == reflect.String {
			return strconv.Quote(*s)
		}
		tm, err := time.Parse(map[string]string{"date": "2006-01-02", "timestamp": "2006-01-02 15:04:05"}[ct], *s)
		if err != nil {
			panic(err)
		}
		return strconv.FormatInt(tm.UnixMicro(), 10)
	case "float8", "numeric", "float4":
		if t.Kind() == reflect.String {
			return strconv.Quote(*s)
		}
		f, err := strconv.ParseFloat(*s, 64)
		if err != nil {
			panic(err)
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	case "text[]", "int4[]":
		return fmt.Sprintf("%q", parseArray(*s))
	case "bytea":
		b, err := hex.DecodeString(strings.TrimPrefix(*s, `\x`))
		if err != nil {
			panic(err)
		}
		return strconv.Quote(string(b))
	case "timestamptz":
		tm, err := time.Parse("2006-01-02 15:04:05-07", *s)
		if err != nil { // a time before there were time zones
			tm, err = time.Parse("2006-01-02 15:04:05-07:00:00", *s)
		}
		if err != nil {
			panic(err)
		}
		return strconv.FormatInt(tm.UnixMicro(), 10)
	case "jsonb":
		p := reflect.New(t)
		if err := json.Unmarshal([]byte(*s), p.Interface()); err != nil {
			panic(err)
		}
		return canonGo(p.Elem(), ct)
	}
	panic("canonText: " + ct)
}

// parseArray splits the text of a one-dimensional array without NULLs.
func parseArray(s string) []string {
	var out []string
	s = s[1 : len(s)-1]
	for i := 0; i < len(s); {
		var b strings.Builder
		if s[i] == '"' {
			i++
			for s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				b.WriteByte(s[i])
				i++
			}
			i++
		} else {
			for i < len(s) && s[i] != ',' {
				b.WriteByte(s[i])
				i++
			}
		}
		out = append(out, b.String())
		i++ // comma
	}
	return out
}

// field walks to a leaf; pointers on the way are followed (ok is false if one is nil).
func field(rec reflect.Value, path []string, alloc bool) (reflect.Value, bool) {
	v := rec
	for i, p := range path {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !alloc {
					return reflect.Value{}, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.FieldByName(p)
		if !v.IsValid() {
			panic(fmt.Sprintf("no field %v (%d) in %v", path, i, rec.Type()))
		}
	}
	return v, true
}

// fillRec draws a record.
func fillRec(rec reflect.Value, r *qspec.Rec, table string) {
	for _, l := range r.Leaves {
		v, _ := field(rec, l.Path, true)
		drawGo(v, table, l.Col, l.CT)
		if l.NullZero && l.CT == "float8" && !rt.Chance(30) {
			// fractions are refused (a known finding), which ends the run
			v.SetFloat(float64(int(v.Float())))
		}
	}
}

// canonRec renders the given leaves of a record.
func canonRec(rec reflect.Value, leaves []*qspec.Leaf) string {
	var b strings.Builder
	for _, l := range leaves {
		v, ok := field(rec, l.Path, false)
		if ok {
			fmt.Fprintf(&b, "%s=%s ", l.Col, canonGo(v, l.CT))
		} else {
			fmt.Fprintf(&b, "%s=- ", l.Col)
		}
	}
	return b.String()
}

func canonRow(row []*string, rec reflect.Type, leaves []*qspec.Leaf) string {
	var b strings.Builder
	for i, l := range leaves {
		fmt.Fprintf(&b, "%s=%s ", l.Col, canonText(row[i], leafType(rec, l), l.CT))
	}
	return b.String()
}

func leafType(t reflect.Type, l *qspec.Leaf) reflect.Type {
	for _, p := range l.Path {
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		f, ok := t.FieldByName(p)
		if !ok {
			panic("no field " + p)
		}
		t = f.Type
	}
	return t
}

// scans is the number of AfterScan calls a record has seen.
func scans(rec reflect.Value) int {
	if f := rec.FieldByName("Scans"); f.IsValid() {
		return int(f.Int())
	}
	return -1
}
