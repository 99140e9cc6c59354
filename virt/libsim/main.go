// Command libsim simulates callers of the library packages pgsql and filter:
// histories of scans, encodings and filter renderings with a driver that
// reuses and clobbers its buffers, and concurrent callers under the seeded
// scheduler.
package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/frk/gosql/zzsim/rt"
	"github.com/frk/gosql/zzsim/simutil"
)

// Entry is one Go type for one PostgreSQL type, with its converters.
type Entry struct {
	Name string // <prefix> of the functions
	PG   string // PostgreSQL type
	Type reflect.Type
	From func(v interface{}) driver.Valuer // nil when there is none
	To   func(p interface{}) sql.Scanner
	// names of the functions
	FromName, ToName string
}

// DVal is a driver value in the corpus file.
type DVal struct {
	K string `json:"k"`
	V string `json:"v"`
}

func (d DVal) value() driver.Value {
	switch d.K {
	case "bytes":
		b, _ := base64.StdEncoding.DecodeString(d.V)
		if b == nil {
			b = []byte{}
		}
		return b
	case "string":
		b, _ := base64.StdEncoding.DecodeString(d.V)
		return string(b)
	case "int":
		n, _ := strconv.ParseInt(d.V, 10, 64)
		return n
	case "float":
		f, _ := strconv.ParseFloat(d.V, 64)
		return f
	case "bool":
		return d.V == "true"
	case "time":
		i := strings.IndexByte(d.V, '|')
		t, _ := time.Parse(time.RFC3339Nano, d.V[:i])
		off, _ := strconv.Atoi(d.V[i+1:])
		return t.In(time.FixedZone("", off))
	}
	return nil
}

var corpus map[string][]DVal // by PostgreSQL type
var toIdx, fromIdx []int     // entries with a scanner / with a valuer

func main() {
	w := simutil.NewWorker("libsim")
	b, err := os.ReadFile(w.Params["corpus"])
	if err == nil {
		err = json.Unmarshal(b, &corpus)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "libsim:", err)
		os.Exit(4)
	}
	sort.SliceStable(Registry, func(i, j int) bool { return Registry[i].Name < Registry[j].Name })
	for i, e := range Registry {
		if len(corpus[e.PG]) == 0 {
			fmt.Fprintln(os.Stderr, "libsim: no values for", e.Name, e.PG)
			os.Exit(4)
		}
		if e.To != nil {
			toIdx = append(toIdx, i)
		}
		if e.From != nil {
			fromIdx = append(fromIdx, i)
		}
	}
	rt.ShuffleMaps = true
	switch w.Check {
	case "C09":
		w.Run = runC09
	case "C10":
		w.Run = runC10
	case "C11":
		w.Run = runC11
	case "C08lib":
		w.Run = runC08
	default:
		fmt.Fprintln(os.Stderr, "libsim: unknown check", w.Check)
		os.Exit(4)
	}
	w.Sample = func() string { return sample }
	w.Main()
}

var sample string

// drawValue picks what the database sends for a column of the entry's type.
// kind says what it is, for the statistics.
func drawValue(e *Entry) (v driver.Value, kind string) {
	vals := corpus[e.PG]
	switch rt.Weighted(12, 3, 1, 1) {
	case 1:
		return nil, "null"
	case 2: // damaged text: the scan may fail
		d := vals[rt.Draw(len(vals))].value()
		if b, ok := d.([]byte); ok && len(b) > 0 {
			switch rt.Draw(3) {
			case 0:
				b = b[:rt.Draw(len(b))]
			case 1:
				b[rt.Draw(len(b))] ^= byte(1 + rt.Draw(255))
			default:
				b = append(b, b[rt.Draw(len(b))])
			}
			return append(make([]byte, 0, len(b)), b...), "damaged"
		}
		return d, "value"
	case 3: // the same text as the other kind a driver may send
		d := vals[rt.Draw(len(vals))].value()
		switch x := d.(type) {
		case []byte:
			return string(x), "string"
		case string:
			return []byte(x), "bytes"
		}
		return d, "value"
	}
	return vals[rt.Draw(len(vals))].value(), "value"
}

func cloneVal(v driver.Value) driver.Value {
	if b, ok := v.([]byte); ok && b != nil {
		c := make([]byte, len(b))
		copy(c, b)
		return c[:len(b):len(b)]
	}
	return v
}

// scan scans v into p; panics become errors of their own kind.
func scan(e *Entry, p interface{}, v driver.Value) (err error, pan interface{}) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	return e.To(p).Scan(v), nil
}

func encode(vr driver.Valuer) (v driver.Value, err error, pan interface{}) {
	defer func() {
		if r := recover(); r != nil {
			pan = r
		}
	}()
	v, err = vr.Value()
	return
}

func show(v driver.Value) string {
	s := simutil.Dump(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// A bufs is the driver's receive buffer: each row is written over the last.
type bufs struct {
	mem []byte
}

func (b *bufs) load(v driver.Value, exact bool) driver.Value {
	x, ok := v.([]byte)
	if !ok {
		return v
	}
	if cap(b.mem) < len(x)+64 {
		b.mem = make([]byte, 0, 2*len(x)+256)
	}
	m := b.mem[:cap(b.mem)]
	for i := range m {
		m[i] = 'Z'
	}
	at := rt.Draw(3) * 7
	copy(m[at:], x)
	rt.Hit("driver.buffer.reused")
	if !exact && rt.Draw(2) == 1 {
		return m[at : at+len(x)] // spare capacity behind the value belongs to the driver
	}
	return m[at : at+len(x) : at+len(x)]
}

func (b *bufs) clobber() {
	m := b.mem[:cap(b.mem)]
	k := byte(rt.Draw(3))
	for i := range m {
		switch k {
		case 0:
			m[i] = 0xAA
		case 1:
			m[i] = '1'
		default:
			m[i] = m[i]*7 + 3
		}
	}
	rt.Hit("driver.buffer.clobbered")
}

func (b *bufs) spareIntact(v driver.Value) bool {
	x, ok := v.([]byte)
	if !ok || cap(x) == len(x) {
		return true
	}
	for _, c := range x[len(x):cap(x)] {
		if c != 'Z' {
			return false
		}
	}
	return true
}

// runC09: a few destinations, each scanned into several times, from one
// driver buffer. Reference: the same value scanned into a zero destination
// from memory nothing else touches.
func runC09(w *simutil.Worker) *simutil.Violation {
	type dst struct {
		e *Entry
		p reflect.Value
		// what was produced last, and a shallow copy a consumer kept
		want string
		gen  int // number of scans
	}
	type saved struct {
		e    *Entry
		v    reflect.Value
		want string
		src  string
		d    *dst // where it was scanned into,
		gen  int  // and by which scan
	}
	var dsts []*dst
	var keep []saved
	buf := &bufs{}
	n := 1 + rt.Draw(3)
	for i := 0; i < n; i++ {
		e := Registry[toIdx[rt.Draw(len(toIdx))]]
		dsts = append(dsts, &dst{e: e, p: reflect.New(e.Type)})
	}
	sample = ""
	checkAll := func(when string) *simutil.Violation {
		for _, d := range dsts {
			if d.want == "" {
				continue
			}
			if got := simutil.Dump(d.p.Elem().Interface()); got != d.want {
				return simutil.Violate("memory:"+d.e.ToName, "%s: value scanned by pgsql.%s changed %s\n  scanned: %s\n  now:     %s", d.e.PG, d.e.ToName, when, d.want, got)
			}
		}
		for _, k := range keep {
			if got := simutil.Dump(k.v.Interface()); got != k.want {
				return simutil.Violate("kept:"+k.e.ToName, "%s: a value scanned by pgsql.%s from %s and kept by its consumer changed %s\n  scanned: %s\n  now:     %s",
					k.e.PG, k.e.ToName, k.src, when, k.want, got)
			}
		}
		return nil
	}
	for step := rt.Range(1, 8); step > 0; step-- {
		d := dsts[rt.Draw(len(dsts))]
		v, kind := drawValue(d.e)
		rt.Hit("scan." + kind)
		w.Evals++

		// reference
		fresh := reflect.New(d.e.Type)
		refErr, refPan := scan(d.e, fresh.Interface(), cloneVal(v))
		ref := simutil.Dump(fresh.Elem().Interface())

		dirty := d.want != ""
		if dirty {
			rt.Hit("scan.into.used")
		}
		in := buf.load(v, kind == "damaged")
		err, pan := scan(d.e, d.p.Interface(), in)
		rt.Logf("%s.Scan(%s %s) dirty=%v -> %s, err=%v", d.e.ToName, kind, show(v), dirty, simutil.Dump(d.p.Elem().Interface()), err)
		rt.ObserveString(d.e.ToName)
		rt.ObserveString(kind)
		if sample == "" || len(sample) < 400 {
			sample += fmt.Sprintf("%s<-%s(%s) used=%v; ", d.e.ToName, kind, show(v), dirty)
		}
		if (pan != nil) != (refPan != nil) {
			return simutil.Violate("history:"+d.e.ToName, "%s: pgsql.%s panics depending on the destination's history: %v vs %v for %s", d.e.PG, d.e.ToName, pan, refPan, show(v))
		}
		if !buf.spareIntact(in) {
			return simutil.Violate("spare:"+d.e.ToName, "%s: pgsql.%s wrote behind the value in the driver's buffer (%s)", d.e.PG, d.e.ToName, show(v))
		}
		if b, ok := in.([]byte); ok {
			if string(b) != string(v.([]byte)) {
				return simutil.Violate("buffer:"+d.e.ToName, "%s: pgsql.%s modified the driver's buffer: %q became %q", d.e.PG, d.e.ToName, v, b)
			}
		}
		if (err != nil) != (refErr != nil) {
			return simutil.Violate("history:"+d.e.ToName, "%s: scanning %s with pgsql.%s into a used destination gives error %v, into a fresh one %v", d.e.PG, show(v), d.e.ToName, err, refErr)
		}
		if err != nil || pan != nil {
			rt.Hit("scan.error")
			d.p = reflect.New(d.e.Type) // the content after a failed scan is not specified
			d.want = ""
			continue
		}
		got := simutil.Dump(d.p.Elem().Interface())
		if got != ref {
			return simutil.Violate("history:"+d.e.ToName, "%s: scanning %s with pgsql.%s into a used destination\n  gives:                  %s\n  a fresh destination has: %s", d.e.PG, show(v), d.e.ToName, got, ref)
		}
		d.want = got
		d.gen++
		if rt.Draw(2) == 1 && !strings.HasPrefix(d.e.Name, "JSON:") && !strings.HasPrefix(d.e.Name, "XML:") {
			// a consumer keeps the value (not the variable) beyond the next row
			c := reflect.New(d.e.Type).Elem()
			c.Set(d.p.Elem())
			keep = append(keep, saved{d.e, c, got, show(v), d, d.gen})
			rt.Hit("value.kept")
		}
		buf.clobber()
		if v := checkAll("after the driver reused its buffer"); v != nil {
			return v
		}
		if rt.Draw(3) != 2 {
			continue
		}
		// a consumer appends to slices of a value, or changes one in place;
		// the other ones are not affected
		x := d.p.Elem()
		from := d
		gen := d.gen
		if len(keep) > 0 && rt.Bool() {
			k := keep[rt.Draw(len(keep))]
			x, from, gen = k.v, k.d, k.gen
		}
		if rt.Bool() {
			if appendTo(x) {
				rt.Hit("value.appended")
			}
			if v := checkAll("when a consumer appended to it or to another one"); v != nil {
				return v
			}
			continue
		}
		if edit(x) {
			rt.Hit("value.edited")
		}
		n := 0
		for _, k := range keep {
			if k.d != from || k.gen != gen {
				keep[n] = k
				n++
			}
		}
		keep = keep[:n]
		if from.gen == gen {
			from.want = ""
		}
		if v := checkAll("when a consumer changed another one"); v != nil {
			return v
		}
	}
	return checkAll("by a later scan")
}

// appendTo does to the slices in v what an append to them does.
func appendTo(v reflect.Value) (done bool) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && v.Type() != reflect.TypeOf((*time.Location)(nil)) {
			return appendTo(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if appendTo(v.Index(i)) {
				done = true
			}
		}
		for i := v.Len(); i < v.Cap(); i++ {
			x := v.Slice(0, v.Cap()).Index(i)
			scramble(x)
			done = true
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if appendTo(v.Index(i)) {
				done = true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type() != reflect.TypeOf(time.Time{}) && v.Type().Field(i).IsExported() && appendTo(v.Field(i)) {
				done = true
			}
		}
	}
	return done
}

// edit changes what v refers to in place.
func edit(v reflect.Value) (done bool) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || v.Type() == reflect.TypeOf((*time.Location)(nil)) {
			return false
		}
		if v.Kind() == reflect.Ptr && scramble(v.Elem()) {
			return true
		}
		return edit(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if edit(v.Index(i)) || scramble(v.Index(i)) {
				done = true
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if edit(v.Index(i)) {
				done = true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			edit(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
			done = true
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type() != reflect.TypeOf(time.Time{}) && v.Type().Field(i).IsExported() && edit(v.Field(i)) {
				done = true
			}
		}
	}
	return done
}

// scramble sets a basic value to another one.
func scramble(v reflect.Value) bool {
	if !v.CanSet() {
		return false
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 0x55)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 0x55)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
	case reflect.String:
		v.SetString(v.String() + "~")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
		v.Set(reflect.Zero(v.Type()))
	case reflect.Struct:
		v.Set(reflect.Zero(v.Type()))
	default:
		return false
	}
	return true
}

// spread gives the slices in v spare capacity, lets the slices in a slice lie
// side by side in one array, as those that are cut out of a message do, and
// returns all of the arrays.
func spread(v reflect.Value) (arrays []reflect.Value) {
	if v.Kind() != reflect.Slice || v.IsNil() || !v.CanSet() {
		return nil
	}
	n := v.Len()
	s := reflect.MakeSlice(v.Type(), n+2, n+2)
	reflect.Copy(s, v)
	for i := n; i < n+2; i++ {
		scramble(s.Index(i))
	}
	v.Set(s.Slice(0, n))
	if et := v.Type().Elem(); et.Kind() == reflect.Slice {
		size := 2
		for i := 0; i < n; i++ {
			size += v.Index(i).Len()
		}
		all := reflect.MakeSlice(et, size, size)
		for i := size - 2; i < size; i++ {
			scramble(all.Index(i))
		}
		at := 0
		for i := 0; i < n; i++ {
			x := v.Index(i)
			if x.IsNil() {
				continue
			}
			reflect.Copy(all.Slice(at, size), x)
			end := at + x.Len()
			x.Set(all.Slice(at, end))
			at = end
		}
		arrays = append(arrays, all)
	}
	return append(arrays, s)
}

// decodeWith produces a Go value of the entry's type to encode.
func drawGo(e *Entry) (reflect.Value, bool) {
	if e.To != nil && rt.Draw(4) != 3 {
		vals := corpus[e.PG]
		p := reflect.New(e.Type)
		d := vals[rt.Draw(len(vals))].value()
		if err, pan := scan(e, p.Interface(), d); err == nil && pan == nil {
			return p.Elem(), true
		}
	}
	p := reflect.New(e.Type).Elem()
	fill(p, 0)
	return p, false
}

// fill sets v to generated content.
func fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rt.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt([]int64{0, 1, -1, 7, 42, 100, -128, 127, 1000, -32768, 65, 2147483647}[rt.Draw(12)])
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint([]uint64{0, 1, 7, 49, 48, 65, 97, 200, 255, 65535}[rt.Draw(10)])
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1, -1.5, 0.25, 1e10, -3}[rt.Draw(6)])
	case reflect.String:
		v.SetString([]string{"", "a", "10101", "foo bar", `q"uo\te`, "é{},()", "NULL", "12"}[rt.Draw(8)])
	case reflect.Slice:
		if rt.Draw(5) == 4 {
			return // nil
		}
		n := rt.Small(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n+rt.Draw(3)))
		for i := 0; i < n; i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), depth+1)
		}
	case reflect.Map:
		if rt.Draw(5) == 4 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		for n := rt.Small(4); n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			x := reflect.New(v.Type().Elem()).Elem()
			fill(k, depth+1)
			fill(x, depth+1)
			v.SetMapIndex(k, x)
		}
	case reflect.Ptr:
		if rt.Draw(4) == 3 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Date(2000+rt.Draw(30), time.Month(1+rt.Draw(12)), 1+rt.Draw(28), rt.Draw(24), rt.Draw(60), rt.Draw(60), rt.Draw(1000)*1000, time.UTC)))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(v.Field(i), depth+1)
			}
		}
	case reflect.Interface:
		if v.NumMethod() == 0 {
			v.Set(reflect.ValueOf([]string{"x", "y"}[rt.Draw(2)]))
		}
	}
}

// sameEncoding: equal, or - where the text form has no canonical order -
// decoding to equal values.
func sameEncoding(e *Entry, a, b driver.Value) bool {
	if simutil.Dump(a) == simutil.Dump(b) {
		return true
	}
	if e.To == nil || !hasMap(e.Type) {
		return false
	}
	pa, pb := reflect.New(e.Type), reflect.New(e.Type)
	ea, _ := scan(e, pa.Interface(), cloneVal(a))
	eb, _ := scan(e, pb.Interface(), cloneVal(b))
	return ea == nil && eb == nil && simutil.Dump(pa.Elem().Interface()) == simutil.Dump(pb.Elem().Interface())
}

func hasMap(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Map:
		return true
	case reflect.Slice, reflect.Array, reflect.Ptr:
		return hasMap(t.Elem())
	}
	return false
}

// runC10: a statement's arguments are encoded, other work happens, the
// statement is retried.
func runC10(w *simutil.Worker) *simutil.Violation {
	type arg struct {
		e      *Entry
		in     reflect.Value
		dump   string
		vr     driver.Valuer
		first  driver.Value
		copyOf driver.Value
		err    error
		pan    interface{}
		arrays []reflect.Value // that the value's slices lie in
		spares []string
	}
	var args []*arg
	sample = ""
	buf := &bufs{}
	scratch := map[*Entry]reflect.Value{}
	check := func(when string) *simutil.Violation {
		for _, a := range args {
			if got := simutil.Dump(a.in.Interface()); got != a.dump {
				return simutil.Violate("input:"+a.e.FromName, "pgsql.%s: the Go value changed %s\n  was: %s\n  now: %s", a.e.FromName, when, a.dump, got)
			}
			for i, x := range a.arrays {
				if got := simutil.Dump(x.Interface()); got != a.spares[i] {
					return simutil.Violate("spare-input:"+a.e.FromName, "pgsql.%s: what lies behind a slice of the Go value changed %s\n  was: %s\n  now: %s", a.e.FromName, when, a.spares[i], got)
				}
			}
			if simutil.Dump(a.first) != simutil.Dump(a.copyOf) {
				return simutil.Violate("output:"+a.e.FromName, "pgsql.%s: the encoded value changed %s\n  was: %s\n  now: %s", a.e.FromName, when, show(a.copyOf), show(a.first))
			}
		}
		return nil
	}
	for step := rt.Range(2, 9); step > 0; step-- {
		w.Evals++
		switch k := rt.Weighted(4, 3, 2, 2); {
		case k == 0 || len(args) == 0: // encode a new value
			e := Registry[fromIdx[rt.Draw(len(fromIdx))]]
			if len(args) > 0 && rt.Draw(3) == 2 {
				e = args[0].e // same kind of value again: shared scratch memory would show
			}
			in, real := drawGo(e)
			a := &arg{e: e, in: in, dump: simutil.Dump(in.Interface())}
			if rt.Draw(3) == 2 {
				if a.arrays = spread(in); a.arrays != nil {
					rt.Hit("encode.side-by-side")
				}
				for _, x := range a.arrays {
					a.spares = append(a.spares, simutil.Dump(x.Interface()))
				}
			}
			a.vr = e.From(in.Interface())
			a.first, a.err, a.pan = encode(a.vr)
			a.copyOf = cloneVal(a.first)
			args = append(args, a)
			rt.Hit("encode.first")
			rt.ObserveString(e.FromName)
			rt.Logf("%s(%s) -> %s, err=%v (from a stored value: %v)", e.FromName, a.dump, show(a.first), a.err, real)
			if len(sample) < 400 {
				sample += fmt.Sprintf("encode %s(%s); ", e.FromName, a.dump)
			}
		case k == 1: // the statement is retried: the same argument is encoded again
			a := args[rt.Draw(len(args))]
			vr := a.vr
			if rt.Draw(2) == 1 {
				vr = a.e.From(a.in.Interface()) // a new execution of the same query value
			}
			v, err, pan := encode(vr)
			rt.Hit("encode.retry")
			rt.ObserveString("r" + a.e.FromName)
			rt.Logf("again %s -> %s, err=%v", a.e.FromName, show(v), err)
			if len(sample) < 400 {
				sample += "again " + a.e.FromName + "; "
			}
			if (err != nil) != (a.err != nil) || (pan != nil) != (a.pan != nil) {
				return simutil.Violate("repeat:"+a.e.FromName, "pgsql.%s(%s): first encoding: error %v panic %v; encoded again: error %v panic %v", a.e.FromName, a.dump, a.err, a.pan, err, pan)
			}
			if err == nil && pan == nil && !sameEncoding(a.e, a.first, v) {
				return simutil.Violate("repeat:"+a.e.FromName, "pgsql.%s(%s): encoded as %s, then as %s", a.e.FromName, a.dump, show(a.copyOf), show(v))
			}
		case k == 2: // a result is scanned
			e := Registry[toIdx[rt.Draw(len(toIdx))]]
			p, ok := scratch[e]
			if !ok {
				p = reflect.New(e.Type)
				scratch[e] = p
			}
			v, kind := drawValue(e)
			_, _ = scan(e, p.Interface(), buf.load(v, kind == "damaged"))
			rt.Hit("encode.scan.between")
			buf.clobber()
		default: // another caller encodes a value of its own
			a := args[rt.Draw(len(args))]
			in, _ := drawGo(a.e)
			_, _, _ = encode(a.e.From(in.Interface()))
			rt.Hit("encode.other.between")
		}
		if v := check("by later encodings and scans"); v != nil {
			return v
		}
	}
	return nil
}
