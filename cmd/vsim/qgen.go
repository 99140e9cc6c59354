package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"virt/qspec"
)

// The tables that the generated queries work on.
var qTables = map[string]*qspec.Table{
	"acct": {Name: "acct", PK: []string{"id"}, Cols: []qspec.Col{
		{"id", "int4", false, true}, {"name", "text", false, false}, {"n", "int4", true, false}, {"big", "int8", false, true},
		{"ok", "bool", true, false}, {"flag", "bool", false, true}, {"note", "text", true, false}, {"f8", "float8", true, false},
		{"tags", "text[]", true, false}, {"nums", "int4[]", true, false}, {"doc", "jsonb", true, false}, {"made", "timestamptz", true, false},
		{"uid", "uuid", false, true}, {"raw", "bytea", false, true}}},
	"pair": {Name: "pair", PK: []string{"a", "b"}, Cols: []qspec.Col{
		{"a", "int4", false, false}, {"b", "text", false, false}, {"val", "text", true, false}, {"cnt", "int4", false, true}}},
	"log": {Name: "log", Cols: []qspec.Col{{"k", "int4", false, true}, {"v", "text", true, true}, {"w", "int4", false, true}}},
	"child": {Name: "child", PK: []string{"id"}, Cols: []qspec.Col{
		{"id", "int4", false, false}, {"acct_id", "int4", false, false}, {"label", "text", true, false}, {"qty", "int4", false, false}}},
	// names that need quotes, and types that are neither in the others
	"odd": {Name: "odd", Schema: "zs", PK: []string{"ID"}, Cols: []qspec.Col{
		{"ID", "int4", false, false}, {"order", "text", true, false}, {"camelCase", "int4", false, true}, {"mood", `"Mood"`, true, false},
		{"vc", "varchar", true, false}, {"num", "numeric", false, true}, {"d", "date", false, true}, {"ts", "timestamp", true, false},
		{"s2", "int2", true, false}, {"f4", "float4", false, true}, {"Code", "text", false, false}}},
}

const qSchema = `
CREATE TABLE acct (id serial PRIMARY KEY, name text NOT NULL CONSTRAINT acct_name_key UNIQUE, n int4 CONSTRAINT acct_n_check CHECK (n < 1000),
 big int8 NOT NULL DEFAULT 7, ok bool, flag bool NOT NULL DEFAULT true, note text, f8 float8, tags text[], nums int4[], doc jsonb, made timestamptz,
 uid uuid NOT NULL DEFAULT '5b1c0000-0000-0000-0000-0000000000aa', raw bytea NOT NULL DEFAULT '');
CREATE TABLE pair (a int4, b text, val text, cnt int4 NOT NULL DEFAULT 1, CONSTRAINT pair_pkey PRIMARY KEY (a, b));
CREATE TABLE log (k int4 NOT NULL DEFAULT 3, v text DEFAULT 'dv', w int4 NOT NULL DEFAULT 0);
CREATE TABLE child (id int4 GENERATED BY DEFAULT AS IDENTITY PRIMARY KEY, acct_id int4 NOT NULL, label text, qty int4 NOT NULL,
 _doc tsvector GENERATED ALWAYS AS (to_tsvector('simple', coalesce(label, ''))) STORED);
CREATE SCHEMA zs;
CREATE TYPE "Mood" AS ENUM ('sad', 'ok', 'Happy');
CREATE TABLE zs.odd ("ID" int4 PRIMARY KEY, "order" text, "camelCase" int4 NOT NULL DEFAULT 5, mood "Mood", vc varchar(40), num numeric(12,2) NOT NULL DEFAULT 1.5,
 d date NOT NULL DEFAULT '2020-02-02', ts timestamp, s2 int2, f4 float4 NOT NULL DEFAULT 0.5, "Code" text NOT NULL);
CREATE UNIQUE INDEX "Odd_Code" ON zs.odd (lower("Code")) WHERE "camelCase" > 0;
`

// field types by column type, with whether the zero value stands for NULL
var qGoTypes = map[string][]string{
	"text":        {"string", "string", "*string", "[]byte", "qrt.Str", "sql.NullString"},
	"int4":        {"int", "int32", "int64", "*int", "qrt.Int", "sql.NullInt64", "int16", "*int64"},
	"int8":        {"int64", "int", "*int64", "qrt.Int"},
	"bool":        {"bool", "*bool", "qrt.Bool", "sql.NullBool"},
	"float8":      {"float64", "*float64", "float32"},
	"text[]":      {"[]string", "[]string", "[][]byte"},
	"int4[]":      {"[]int", "[]int32", "[]int64"},
	"jsonb":       {"qrt.Doc", "*qrt.Doc", "map[string]interface{}"},
	"timestamptz": {"*time.Time"},
	"uuid":        {"string", "[16]byte"},
	"bytea":       {"[]byte", "string"},
	`"Mood"`:      {"*string", "sql.NullString", "string"},
	"varchar":     {"string", "*string", "[]byte", "sql.NullString"},
	"numeric":     {"string", "float64"},
	"date":        {"string", "time.Time"},
	"timestamp":   {"*time.Time"},
	"int2":        {"int16", "int", "*int", "int32"},
	"float4":      {"float32", "float64"},
}

var qNullZero = map[string]bool{"string": true, "[]byte": true, "qrt.Str": true, "int": true, "int32": true, "int64": true, "int16": true, "qrt.Int": true,
	"bool": true, "qrt.Bool": true, "float64": true, "float32": true}

var nullZeroCT = map[string]bool{"text": true, "int4": true, "int8": true, "bool": true, "float8": true, "bytea": true, "varchar": true, "int2": true}

type qg struct {
	r     *rand.Rand
	spec  *qspec.Spec
	files map[string]*bytes.Buffer // path below the module
	recs  map[string][]string      // "<scope>/<table>/<purpose>" -> record keys
	types map[string]string        // record key -> Go type as seen from its own package
	n     int
}

func (g *qg) pick(s ...string) string { return s[g.r.Intn(len(s))] }
func (g *qg) chance(p float64) bool   { return g.r.Float64() < p }

func camel(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		out += strings.ToUpper(p[:1]) + p[1:]
	}
	return out
}

// fields draws the fields of a record and returns their source.
// purpose: full (insert, update by key, select), patch (update of many), read.
func (g *qg) fields(table, purpose, alias string, depth bool) (string, []*qspec.Leaf) {
	t := qTables[table]
	var cols []qspec.Col
	for _, c := range t.Cols {
		pk := qspec.Contains(t.PK, c.Name)
		switch purpose {
		case "full":
			if pk || !c.Nullable && !c.Default || g.chance(0.55) {
				cols = append(cols, c)
			}
		case "patch":
			if !pk && c.Name != "name" && c.Name != "acct_id" && c.Name != "k" && c.Name != "Code" && g.chance(0.45) {
				cols = append(cols, c)
			}
		case "read":
			if pk || c.Name == "k" || g.chance(0.5) {
				cols = append(cols, c)
			}
		}
	}
	if len(cols) == 0 {
		for _, c := range t.Cols {
			if c.Name == "note" || c.Name == "val" || c.Name == "v" || c.Name == "label" || c.Name == "order" {
				cols = append(cols, c)
			}
		}
	}
	g.r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	var leaves []*qspec.Leaf
	opts := map[string]string{}
	for _, c := range cols {
		l := &qspec.Leaf{Col: c.Name, CT: c.CT, Nullable: c.Nullable}
		l.GoT = g.pick(qGoTypes[c.CT]...)
		key := qspec.Contains(t.PK, c.Name) || c.Name == "name" || c.Name == "acct_id" || c.Name == "k" || c.Name == "Code"
		if key {
			l.GoT = map[string]string{"int4": g.pick("int", "int32", "int64"), "text": "string"}[c.CT]
		}
		if !c.Nullable && (strings.HasPrefix(l.GoT, "*") || strings.HasPrefix(l.GoT, "sql.Null")) && !g.chance(0.15) {
			l.GoT = map[string]string{"text": "string", "int4": "int", "int8": "int64", "bool": "bool"}[c.CT]
		}
		l.NullZero = c.Nullable && qNullZero[l.GoT] && nullZeroCT[c.CT]
		opt := ""
		switch {
		case c.Name == "id" && g.chance(0.6):
			opt, l.NoInsert, l.NoUpdate = g.pick(",ro", ",ro", ",-w", ",-iu"), true, true
		case c.Name == "id":
		case key:
		case purpose == "full" && g.chance(0.06) && c.Default:
			opt, l.NoInsert, l.NoUpdate = ",ro", true, true
		case purpose == "full" && g.chance(0.06):
			opt, l.NoRead = g.pick(",wo", ",-r", ",-s"), true
		case purpose == "full" && c.Nullable && g.chance(0.08):
			opt, l.NoInsert = ",-i", true
		case purpose == "full" && g.chance(0.08):
			opt, l.NoUpdate = ",-u", true
		}
		// a column that is always set to its default
		if purpose == "full" && c.Default && !key && opt == "" && g.chance(0.05) {
			opt, l.Default = ",default", true
		}
		// what stands for NULL
		if c.CT == `"Mood"` && l.GoT == "string" { // its type has no zero value
			l.UseCo, l.Coalesce = true, "'ok'"
			opt += ",coalesce('ok')"
		}
		if v := qCoalesce[c.CT]; v != "" && c.Nullable && !l.NoRead && g.chance(0.12) {
			l.UseCo, l.Coalesce = true, v
			if g.chance(0.4) {
				opt += ",coalesce"
				l.Coalesce = qCoalesceZero[c.CT]
			} else {
				opt += ",coalesce(" + v + ")"
			}
		}
		opts[c.Name] = opt
		leaves = append(leaves, l)
	}
	var types strings.Builder
	motif := ""
	if depth && len(leaves) > 2 && g.chance(0.15) {
		motif = "top"
	}
	src := g.level(leaves, opts, nil, "", depth, &types, map[string]bool{}, motif)
	if types.Len() > 0 {
		src += "\x00" + types.String()
	}
	return src, leaves
}

// values that stand for NULL
var qCoalesce = map[string]string{"varchar": "'none'", "int2": "-7", "text": "'none'", "int4": "-7", "int8": "-9", "bool": "true", "float8": "2.5"}
var qCoalesceZero = map[string]string{"varchar": "''", "int2": "0", "text": "''", "int4": "0", "int8": "0", "bool": "false", "float8": "0"}

// the names of nested structs; some are made of the others, and they are used again in other structs
var qNestNames = []string{"N", "E", "NE", "X", "EX", "NEX", "Nest", "Sub"}

// level draws the fields of one struct of a record: each of the leaves is a
// field of it or of a struct nested in it. It sets the leaves' paths. The motif
// is a pair of nested structs, N.E and NE, whose paths read the same.
func (g *qg) level(leaves []*qspec.Leaf, opts map[string]string, path []string, prefix string, nest bool, types *strings.Builder, nests map[string]bool, motif string) string {
	used := map[string]bool{"Scans": true}
	var groups [][]*qspec.Leaf // of nested structs
	var pfx []string
	rest := leaves
	forced := map[string][]string{"top": {"N", "NE"}, "in": {"E"}}[motif]
	for i := range forced {
		groups, pfx = append(groups, rest[:1]), append(pfx, "")
		rest = rest[1:]
		if motif == "top" && i == 0 && len(rest) > 1 && g.chance(0.5) {
			groups[0] = leaves[:2]
			rest = rest[1:]
		}
	}
	if forced == nil && nest && len(path) < 3 && len(leaves) > 1 {
		p := 0.4
		if len(path) > 0 {
			p = 0.5
		}
		for g.chance(p) && len(nests)+len(groups) < 5 && len(rest) > 0 {
			p = 0.5
			k := 1 + g.r.Intn(len(rest))
			if len(path) == 0 && k == len(rest) && k > 1 {
				k--
			}
			group := append([]*qspec.Leaf(nil), rest[:k]...)
			others := append([]*qspec.Leaf(nil), rest[k:]...)
			pre := ""
			if g.chance(0.3) { // the columns' names begin with what the nested struct's tag says
				name := rest[0].Col[len(prefix):]
				if len(name) > 1 {
					pre = name[:1+g.r.Intn(len(name)-1)]
					group, others = nil, nil
					for _, l := range rest {
						if c := l.Col[len(prefix):]; len(c) > len(pre) && strings.HasPrefix(c, pre) {
							group = append(group, l)
						} else {
							others = append(others, l)
						}
					}
				}
			}
			groups, pfx, rest = append(groups, group), append(pfx, pre), others
		}
	}
	type part struct {
		leaf *qspec.Leaf
		i    int
	}
	var parts []part
	for _, l := range rest {
		parts = append(parts, part{leaf: l})
	}
	for i := range groups {
		parts = append(parts, part{i: i})
	}
	if len(groups) > 0 && g.chance(0.7) {
		g.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	for _, l := range rest { // the names that the fields have by default
		used["F"+camel(l.Col)] = true
	}
	var src strings.Builder
	for i, x := range parts {
		if l := x.leaf; l != nil {
			name := "F" + camel(l.Col)
			if len(path) > 0 && g.chance(0.5) { // a name that another struct's field has as well
				if o := "F" + camel(g.pick("id", "name", "n", "a", "k", "val")); !used[o] {
					name = o
					used[o] = true
				}
			}
			l.Path = append(append([]string(nil), path...), name)
			fmt.Fprintf(&src, "\t%s %s `sql:\"%s%s\"`\n", name, l.GoT, l.Col[len(prefix):], opts[l.Col])
		} else {
			g.n++
			typ := fmt.Sprintf("Sub%d", g.n)
			name, ptr := g.pick(qNestNames...), g.pick("", "*")
			if g.chance(0.6) { // one that makes the path read like another one
				for _, n := range qNestNames {
					if j := strings.Join(path, "") + n; nests[j] && !used[n] {
						name, ptr = n, g.pick("", "*", "*", "*")
					}
				}
			}
			inner := ""
			if x.i < len(forced) {
				name, ptr = forced[x.i], g.pick("*", "*", "*", "")
				if name == "N" {
					inner, ptr = "in", g.pick("*", "")
				}
			}
			for used[name] {
				name += "X"
			}
			decl := name + " "
			if x.i >= len(forced) && g.chance(0.15) {
				name, decl = typ, ""
			}
			used[name] = true
			nests[strings.Join(path, "")+name] = true
			fmt.Fprintf(&src, "\t%s%s%s `sql:\">%s\"`\n", decl, ptr, typ, pfx[x.i])
			body := g.level(groups[x.i], opts, append(append([]string(nil), path...), name), prefix+pfx[x.i], nest, types, nests, inner)
			fmt.Fprintf(types, "type %s struct {\n%s}\n", typ, body)
		}
		if g.chance(0.1) {
			fmt.Fprintf(&src, "\tX%d int\n", i) // not a column
		}
	}
	return src.String()
}

// record declares a record type in the package scope and returns its key.
func (g *qg) record(scope, table, purpose string) string {
	pool := scope + "/" + table + "/" + purpose
	if l := g.recs[pool]; len(l) > 0 && (len(l) >= 3 || g.chance(0.6)) {
		return l[g.r.Intn(len(l))]
	}
	g.n++
	name := fmt.Sprintf("%s%s%d", camel(table), camel(purpose), g.n)
	src, leaves := g.fields(table, purpose, "", true)
	after := ""
	if i := strings.IndexByte(src, 0); i >= 0 {
		src, after = src[:i], src[i+1:]
	}
	rec := &qspec.Rec{Leaves: leaves, AfterScan: g.chance(0.4)}
	b := g.file(scope + "/records.go")
	promoted := rec.AfterScan && g.chance(0.3)
	if promoted {
		src = "\t" + name + "Base `sql:\"-\"`\n" + src
	} else if rec.AfterScan {
		src += "\tScans int\n"
	}
	fmt.Fprintf(b, "type %s struct {\n%s}\n%s", name, src, after)
	if promoted {
		// the method is that of an embedded struct
		fmt.Fprintf(b, "type %sBase struct {\n\tScans int\n}\n", name)
		fmt.Fprintf(b, "func (r *%sBase) AfterScan() {\n\tr.Scans++\n\tqrt.AfterScan((*%s)(unsafe.Pointer(r)))\n}\n", name, name)
	} else if rec.AfterScan {
		fmt.Fprintf(b, "func (r *%s) AfterScan() {\n\tr.Scans++\n\tqrt.AfterScan(r)\n}\n", name)
	}
	b.WriteString("\n")
	key := scope + "." + name
	g.spec.Recs[key] = rec
	g.recs[pool] = append(g.recs[pool], key)
	return key
}

func (g *qg) file(path string) *bytes.Buffer {
	b := g.files[path]
	if b == nil {
		b = &bytes.Buffer{}
		g.files[path] = b
	}
	return b
}

// the type of a record as seen from a package
func typeFrom(pkg, key string) string {
	if strings.HasPrefix(key, pkg+".") {
		return key[len(pkg)+1:]
	}
	return key
}

type qpkg struct {
	name    string
	ctxArg  bool
	method  string
	argType string
	flags   []string
	queries int
	config  string
}

var qpkgs = []*qpkg{
	{name: "p1", method: "Exec"},
	{name: "p2", method: "Exec", ctxArg: true, flags: []string{"-with-ctx=true"}},
	{name: "p3", method: "Run", flags: []string{"-qid=true", "-o", "db_%s.go"}, config: `{"method_name": "Run",
	"filter_value_converters": [{"type": "github.com/frk/gosql/zzsim/qgen/qrt.Int", "func": "github.com/frk/gosql/zzsim/qgen/qrt.ConvInt"}]}`},
	{name: "p4", method: "Exec", argType: "qrt.DBTX", flags: []string{"-argtype", "github.com/frk/gosql/zzsim/qgen/qrt.DBTX"}},
}

// a shape is what has to be covered by some query
type shape struct{ kind, rel, out, qual string }

var qShapes = func() (out []shape) {
	add := func(kind string, rels, outs, quals []string) {
		for _, r := range rels {
			for _, o := range outs {
				for _, q := range quals {
					out = append(out, shape{kind, r, o, q})
				}
			}
		}
	}
	res := []string{"res:one", "res:one*", "res:slice", "res:slice*", "res:iter", "res:iter*", "res:iface*", "res:iface"}
	all := append([]string{"", "aff", "ret"}, res...)
	add("insert", []string{"one", "one*", "anon"}, []string{"", "aff", "ret", "res:one", "res:one*"}, []string{"plain", "conflict"})
	add("insert", []string{"slice", "slice*"}, []string{"", "aff", "ret", "ret", "res:slice", "res:slice*", "res:iter*", "res:iface"}, []string{"plain", "conflict"})
	add("update", []string{"one", "one*", "anon"}, []string{"", "aff", "ret", "res:one", "res:one*"}, []string{"pk"})
	add("update", []string{"slice", "slice*"}, []string{"", "", "aff", "aff", "ret", "res:slice", "res:slice*", "res:iter"}, []string{"pk", "pk"})
	add("update", []string{"one", "one*"}, []string{"", "aff", "res:slice", "res:slice*", "res:iter", "res:iface*"}, []string{"where", "filter"})
	add("update", []string{"one"}, []string{"", "aff", "res:slice*"}, []string{"all", "join"})
	add("delete", []string{"dir"}, []string{"", "aff", "res:slice", "res:slice*", "res:iter", "res:iter*", "res:iface*"}, []string{"where", "filter"})
	add("delete", []string{"dir"}, []string{"aff", "res:slice"}, []string{"all", "join"})
	add("delete", []string{"one", "one*"}, []string{"ret"}, []string{"wherepk"})
	add("delete", []string{"slice", "slice*"}, []string{"ret"}, []string{"where", "filter"})
	add("select", []string{"one", "one*", "anon"}, []string{""}, []string{"wherepk", "order", "filter"})
	add("select", []string{"slice", "slice*", "iter", "iter*", "iface", "iface*"}, []string{""}, []string{"where", "filter", "order", "limit", "join", "none"})
	add("select", []string{"slice", "slice*", "iter", "iface*"}, []string{""}, []string{"where", "order", "order", "limit"})
	add("count", []string{"x"}, []string{"", ""}, []string{"where", "filter", "join", "none"})
	add("exists", []string{"x"}, []string{"", "", ""}, []string{"where", "filter", "join"})
	add("notexists", []string{"x"}, []string{"", "", "", ""}, []string{"where", "filter"})
	_ = all
	return out
}()

// limit adds the fields or directives that limit what a select delivers.
func (g *qg) limit(q *qspec.Query, add func(string, ...interface{})) {
	switch g.r.Intn(4) {
	case 0:
		q.LimitDir = 1 + g.r.Intn(4)
		add("_ gosql.Limit `sql:\"%d\"`", q.LimitDir)
	case 1:
		q.LimitField = "Limit"
		add("Limit int")
	default:
		q.LimitField = "Limit"
		q.LimitDef = 1 + g.r.Intn(4)
		add("Limit int `sql:\"%d\"`", q.LimitDef)
	}
	switch g.r.Intn(4) {
	case 0:
		q.OffsetDir = 1 + g.r.Intn(2)
		add("_ gosql.Offset `sql:\"%d\"`", q.OffsetDir)
	case 1:
		q.OffsetField = "Offset"
		add("Offset int")
	case 2:
		q.OffsetField = "Offset"
		q.OffsetDef = 1 + g.r.Intn(2)
		add("Offset int `sql:\"%d\"`", q.OffsetDef)
	}
}

// GenQueries writes the sources of the query packages below dir and returns their description.
func GenQueries(dir string, seed int64, total int) (*qspec.Spec, error) {
	g := &qg{r: rand.New(rand.NewSource(seed*7919 + 17)), spec: &qspec.Spec{Recs: map[string]*qspec.Rec{}, Tables: qTables},
		files: map[string]*bytes.Buffer{}, recs: map[string][]string{}}
	order := g.r.Perm(len(qShapes))
	reg := map[string]*bytes.Buffer{}
	for i := 0; i < total; i++ {
		p := qpkgs[i%len(qpkgs)]
		sh := qShapes[order[(i/1)%len(order)]]
		if reg[p.name] == nil {
			reg[p.name] = &bytes.Buffer{}
		}
		g.query(p, sh, reg[p.name])
	}
	write := func(path string, b []byte) error {
		f := filepath.Join(dir, path)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			return err
		}
		return os.WriteFile(f, b, 0o644)
	}
	var names []string
	for n := range g.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if err := write(n, header(filepath.Dir(n), g.files[n].String())); err != nil {
			return nil, err
		}
	}
	for _, p := range qpkgs {
		if reg[p.name] != nil {
			src := "func init() {\n" + reg[p.name].String() + "}\n"
			if err := write(p.name+"/zz_reg.go", header(p.name, src)); err != nil {
				return nil, err
			}
		}
	}
	return g.spec, nil
}

// header adds the package clause and the imports that the source needs.
func header(pkg, src string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n", pkg)
	for _, im := range []struct{ use, path string }{
		{"context.", "context"}, {"unsafe.", "unsafe"}, {"sql.Null", "database/sql"}, {"time.", "time"}, {"gosql.", "github.com/frk/gosql"}, {"filter.", "github.com/frk/gosql/filter"},
		{"qrt.", "github.com/frk/gosql/zzsim/qgen/qrt"}, {"recs.", "github.com/frk/gosql/zzsim/qgen/recs"}} {
		if strings.Contains(src, im.use) {
			fmt.Fprintf(&b, "\t%q\n", im.path)
		}
	}
	b.WriteString(")\n\n")
	b.WriteString(src)
	return b.Bytes()
}

func (g *qg) table(sh shape) string {
	switch {
	case sh.qual == "join":
		return "acct"
	case sh.kind == "update" && sh.qual == "pk", sh.kind == "delete" && sh.qual == "wherepk", sh.kind == "select" && sh.qual == "wherepk":
		return g.pick("acct", "acct", "pair", "child", "odd")
	case sh.qual == "conflict":
		return g.pick("acct", "acct", "pair", "odd")
	}
	return g.pick("acct", "acct", "acct", "pair", "log", "child", "odd", "odd")
}

func (g *qg) query(p *qpkg, sh shape, reg *bytes.Buffer) {
	g.n++
	q := &qspec.Query{Pkg: p.name, Kind: sh.kind, Table: g.table(sh), CtxArg: p.ctxArg, Method: p.method}
	prefix := map[string]string{"insert": "Insert", "update": "Update", "delete": "Delete"}[sh.kind]
	if prefix == "" {
		prefix = "Select"
	}
	if g.chance(0.05) {
		prefix = strings.ToUpper(prefix)
	}
	q.Name = fmt.Sprintf("%sQ%d", prefix, g.n)
	q.File = fmt.Sprintf("%s/f%d.go", p.name, g.r.Intn(6))
	if g.chance(0.7) || sh.qual == "join" {
		q.Alias = g.pick("t", "a", "r1", "x")
	}
	rid := qTables[q.Table].FullName()
	if q.Alias != "" {
		rid += ":" + q.Alias
	}
	id := q.Ident()
	var fields []string
	add := func(format string, args ...interface{}) { fields = append(fields, fmt.Sprintf(format, args...)) }
	scope := p.name
	if g.chance(0.5) {
		scope = "recs"
	}
	typ := func(key string, ptr bool) string {
		t := typeFrom(p.name, key)
		if ptr {
			t = "*" + t
		}
		return t
	}
	var iters []string
	out := func(field, form, tag string, key string) *qspec.Out {
		ptr := strings.HasSuffix(form, "*")
		form = strings.TrimSuffix(form, "*")
		o := &qspec.Out{Field: field, Rec: key, Form: form, Ptr: ptr}
		tt := typ(key, ptr)
		arg := "r"
		mk := fmt.Sprintf("func(r %s) error { return f(r) }", tt)
		if !ptr {
			mk = fmt.Sprintf("func(r %s) error { return f(&r) }", tt)
		}
		_ = arg
		switch form {
		case "one":
			add("%s %s%s", field, tt, tag)
		case "slice":
			add("%s []%s%s", field, tt, tag)
		case "iter":
			add("%s func(%s) error%s", field, tt, tag)
			iters = append(iters, fmt.Sprintf("q.(*%s).%s = %s", q.Name, field, mk))
		case "iface":
			g.n++
			in := fmt.Sprintf("Iter%d", g.n)
			b := g.file(q.File)
			fmt.Fprintf(b, "type %s interface {\n\tTake(%s) error\n}\n\n", in, tt)
			rb := g.file(p.name + "/zz_iters.go")
			fmt.Fprintf(rb, "type impl%s struct {\n\tf func(%s) error\n}\n\nfunc (i impl%s) Take(r %s) error { return i.f(r) }\n\n", in, tt, in, tt)
			add("%s %s%s", field, in, tag)
			iters = append(iters, fmt.Sprintf("q.(*%s).%s = impl%s{%s}", q.Name, field, in, mk))
		}
		return o
	}
	relTag := fmt.Sprintf(" `rel:\"%s\"`", rid)
	purpose := map[string]string{"insert": "full", "update": "full", "delete": "read", "select": "read"}[sh.kind]
	if sh.kind == "update" && sh.qual != "pk" {
		purpose = "patch"
	}
	// the relation
	switch {
	case sh.kind == "count":
		add("Count %s%s", g.pick("int", "int64", "int32"), relTag)
		q.Rel = &qspec.Out{Field: "Count", Form: "count"}
	case sh.kind == "exists":
		add("Exists bool%s", relTag)
		q.Rel = &qspec.Out{Field: "Exists", Form: "exists"}
	case sh.kind == "notexists":
		add("NotExists bool%s", relTag)
		q.Rel = &qspec.Out{Field: "NotExists", Form: "notexists"}
	case sh.rel == "dir":
		add("_ gosql.Relation%s", relTag)
		q.Rel = &qspec.Out{Form: "dir"}
	case sh.rel == "anon":
		src, leaves := g.fields(q.Table, purpose, id, false)
		key := p.name + "." + q.Name + ".Rec"
		g.spec.Recs[key] = &qspec.Rec{Leaves: leaves}
		q.Rel = &qspec.Out{Field: "Rec", Rec: key, Form: "one"}
		add("Rec struct {\n%s\t}%s", src, relTag)
	default:
		key := g.record(scope, q.Table, purpose)
		q.Rel = out(g.pick("Rec", "Data", "V"), sh.rel, relTag, key)
	}
	rec := g.spec.Recs[q.Rel.Rec]

	// qualification
	pkConds := func() []*qspec.Cond {
		var l []*qspec.Cond
		for _, c := range qTables[q.Table].PK {
			ct := qTables[q.Table].Col(c).CT
			l = append(l, &qspec.Cond{Kind: "field", Field: "K" + camel(c), L: q.Qual(c) + " =", CT: ct, GoT: map[string]string{"int4": "int", "text": "string"}[ct]})
		}
		return l
	}
	where := func(conds []*qspec.Cond, tags []string) {
		q.Where, q.WhereField = conds, "Where"
		add("Where struct {\n%s\t}", strings.Join(tags, ""))
	}
	otherAlias := "zc"
	switch sh.qual {
	case "wherepk":
		conds := pkConds()
		var tags []string
		for _, c := range conds {
			tags = append(tags, fmt.Sprintf("\t\t%s %s `sql:\"%s\"`\n", c.Field, c.GoT, tagCol(c.L[:len(c.L)-2])))
		}
		where(conds, tags)
	case "where":
		conds, tags := g.conds(q, q.Table, id, 1+g.r.Intn(4), 0)
		where(conds, tags)
	case "join":
		conds, tags := g.conds(q, q.Table, id, 1+g.r.Intn(2), 0)
		link := &qspec.Cond{Kind: "fixed", SQL: fmt.Sprintf(`%s."acct_id" = %s`, otherAlias, q.Qual("id"))}
		linkTag := fmt.Sprintf("\t\t_ gosql.Column `sql:\"%s.acct_id=%s.id\"`\n", otherAlias, id)
		var cs []*qspec.Cond // of the joined relations
		var ts []string
		more := func(rel, alias string) {
			if g.chance(0.7) {
				x := *q
				x.Table, x.Alias = rel, alias
				c, t := g.conds(&x, rel, alias, 1, 1)
				c[0].Or = false
				cs, ts = append(cs, c...), append(ts, t...)
			}
		}
		switch sh.kind {
		case "update", "delete":
			// the joined relations do not see the target
			src, sql := g.joins(map[string]string{otherAlias: "child"}, g.r.Intn(3), false, more)
			more("child", otherAlias)
			add("%s struct {\n\t\t_ gosql.Relation `sql:\"child:%s\"`\n%s\t}", map[string]string{"update": "From", "delete": "Using"}[sh.kind], otherAlias, src)
			q.Join = "child AS " + otherAlias + sql
			nest := &qspec.Cond{Kind: "nest", Field: "N", Sub: conds}
			nestTag := "\t\tN struct {\n" + strings.Join(tags, "") + "\t\t} `sql:\">\"`\n"
			if sh.kind == "update" {
				conds, tags = append([]*qspec.Cond{nest, link}, cs...), append([]string{nestTag, linkTag}, ts...)
			} else {
				conds, tags = append(append([]*qspec.Cond{link}, cs...), nest), append(append([]string{linkTag}, ts...), nestTag)
			}
		default:
			outer := sh.kind != "select"
			src, sql := g.joins(map[string]string{id: q.Table}, 1+g.r.Intn(2), outer, more)
			add("Join struct {\n%s\t}", src)
			q.Join = strings.TrimPrefix(sql, "\n")
			conds, tags = append(conds, cs...), append(tags, ts...)
		}
		where(conds, tags)
	case "filter":
		q.Filter = "F"
		add("F gosql.Filter")
		if g.chance(0.65) {
			q.FT = g.filterType(p, q, rid)
		}
		if sh.kind == "select" && !strings.HasPrefix(sh.rel, "one") && sh.rel != "anon" && len(qTables[q.Table].PK) > 0 && g.chance(0.4) {
			g.limit(q, add)
		} else if sh.kind == "select" && g.chance(0.2) {
			g.order(q, id, add, false)
		}
	case "all":
		q.All = true
		add("_ gosql.All")
	}
	if sh.kind == "select" && (sh.qual == "where" && g.chance(0.3) || sh.qual == "order" || sh.qual == "limit" || sh.qual == "join" && g.chance(0.4)) {
		g.order(q, id, add, sh.rel == "one" || sh.rel == "one*" || sh.rel == "anon" || sh.qual == "limit")
		if q.TotalOrder && sh.qual == "limit" {
			g.limit(q, add)
		}
		if sh.qual == "limit" && g.chance(0.5) {
			conds, tags := g.conds(q, q.Table, id, 1+g.r.Intn(2), 0)
			where(conds, tags)
		}
		if g.chance(0.3) && sh.qual == "order" && sh.rel != "one" && sh.rel != "one*" && sh.rel != "anon" && q.Where == nil {
			conds, tags := g.conds(q, q.Table, id, 1, 0)
			where(conds, tags)
		}
	}

	// what is written
	if sh.kind == "insert" || sh.kind == "update" {
		slice := strings.HasPrefix(sh.rel, "slice")
		if p := map[bool]float64{true: 0.4, false: 0.2}[slice]; g.chance(p) {
			var cols []string
			for _, c := range qTables[q.Table].Cols {
				if leafOf(rec, c.Name) != nil && c.Default && c.Name != "id" && g.chance(0.6) {
					cols = append(cols, c.Name)
				}
			}
			g.r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
			if q.Table == "log" && g.chance(0.3) {
				q.Default = []string{"*"}
				add("_ gosql.Default `sql:\"*\"`")
			} else if len(cols) > 0 {
				q.Default = cols
				add("_ gosql.Default `sql:\"%s\"`", qualify(id, cols))
			}
		}
		if g.chance(0.15) && !(sh.kind == "update" && sh.qual != "pk") {
			var cols []string
			for _, l := range rec.Leaves {
				if (l.NoInsert || l.NoUpdate || l.NoRead) && !qspec.Contains(q.Default, l.Col) {
					cols = append(cols, l.Col)
				}
			}
			if len(cols) > 0 && g.chance(0.3) {
				q.Force = []string{"*"}
				add("_ gosql.Force `sql:\"*\"`")
			} else if len(cols) > 0 {
				q.Force = cols
				add("_ gosql.Force `sql:\"%s\"`", qualify(id, cols))
			}
		}
	}
	if sh.kind == "insert" && q.Table == "child" && g.chance(0.5) {
		q.Override = g.pick("system", "user")
		add("_ gosql.Override `sql:\"%s\"`", q.Override)
	}
	if sh.qual == "conflict" {
		q.Conflict = &qspec.Conflict{}
		target := ""
		if q.Table == "odd" {
			switch g.r.Intn(4) {
			case 0:
				target = fmt.Sprintf("\t\t_ gosql.Column `sql:\"%s.ID\"`\n", id)
				q.Conflict.Target = `("ID")`
			case 1:
				target = "\t\t_ gosql.Index `sql:\"odd_pkey\"`\n"
				q.Conflict.Target = `("ID")`
			case 2:
				target = "\t\t_ gosql.Index `sql:\"Odd_Code\"`\n"
				q.Conflict.Target = `(lower("Code")) WHERE "camelCase" > 0`
			default:
				target = "\t\t_ gosql.Constraint `sql:\"odd_pkey\"`\n"
				q.Conflict.Target = `ON CONSTRAINT odd_pkey`
			}
		} else if q.Table == "acct" {
			switch g.r.Intn(3) {
			case 0:
				target = fmt.Sprintf("\t\t_ gosql.Column `sql:\"%s.name\"`\n", id)
				q.Conflict.Target = `("name")`
			case 1:
				target = "\t\t_ gosql.Index `sql:\"acct_name_key\"`\n"
				q.Conflict.Target = `(name)`
			default:
				target = "\t\t_ gosql.Constraint `sql:\"acct_name_key\"`\n"
				q.Conflict.Target = `ON CONSTRAINT acct_name_key`
			}
		} else {
			switch g.r.Intn(3) {
			case 0:
				target = fmt.Sprintf("\t\t_ gosql.Column `sql:\"%s.a,%s.b\"`\n", id, id)
				q.Conflict.Target = `("a", "b")`
			case 1:
				target = "\t\t_ gosql.Index `sql:\"pair_pkey\"`\n"
				q.Conflict.Target = `(a, b)`
			default:
				target = "\t\t_ gosql.Constraint `sql:\"pair_pkey\"`\n"
				q.Conflict.Target = `ON CONSTRAINT pair_pkey`
			}
		}
		var upd []string
		for _, l := range rec.Leaves {
			if l.Col != "id" && !qspec.Contains(qTables[q.Table].PK, l.Col) && l.Col != "name" && l.Col != "Code" && !l.NoInsert && !l.NoUpdate && g.chance(0.6) {
				upd = append(upd, l.Col)
			}
		}
		if len(upd) > 0 && g.chance(0.65) {
			q.Conflict.Update = upd
			add("OnConflict struct {\n%s\t\t_ gosql.Update `sql:\"%s\"`\n\t}", target, qualify(id, upd))
		} else {
			if g.chance(0.3) {
				target, q.Conflict.Target = "", ""
			}
			add("OnConflict struct {\n%s\t\t_ gosql.Ignore\n\t}", target)
		}
	}

	// what is returned
	switch {
	case sh.out == "aff":
		q.RowsAffected = "RowsAffected"
		add("RowsAffected %s", g.pick("int", "int64", "int32", "uint"))
	case sh.out == "ret":
		var cols []string
		for _, l := range rec.Leaves {
			if !l.NoRead || qspec.Contains(q.Force, l.Col) {
				cols = append(cols, l.Col)
			}
		}
		if len(cols) == 0 {
			break
		}
		if g.chance(0.5) {
			q.Return = cols
			add("_ gosql.Return `sql:\"*\"`")
		} else {
			var sub []string
			for _, c := range cols {
				if g.chance(0.5) {
					sub = append(sub, c)
				}
			}
			if len(sub) == 0 {
				sub = cols[:1]
			}
			q.Return = sub
			add("_ gosql.Return `sql:\"%s\"`", qualify(id, sub))
		}
	case strings.HasPrefix(sh.out, "res:"):
		sc := p.name
		if g.chance(0.5) {
			sc = "recs"
		}
		key := g.record(sc, q.Table, "read")
		q.Result = out("Result", sh.out[4:], "", key)
	}

	few := q.Kind == "count" || q.Kind == "exists" || q.Kind == "notexists"
	switch g.r.Intn(map[bool]int{true: 3, false: 4}[few]) {
	case 0:
		q.Handler, q.HandlerField = "err", "EH"
		add("EH %s", g.pick("qrt.EH", "*qrt.EH", "qrt.IEH", "qrt.PEH"))
	case 1:
		q.Handler, q.HandlerField = "info", "EIH"
		add("EIH %s", g.pick("qrt.EIH", "*qrt.EIH", "qrt.IEIH", "*qrt.PEIH"))
	}
	if g.chance(0.45) {
		q.CtxField = g.pick("Ctx", "Context")
		add("%s context.Context", q.CtxField)
	}
	if g.chance(0.15) {
		add("Extra%d string", g.n)
	}

	// Directives and fields may come in any order, but conflicting checks
	// look at the relation first, so only the rest is shuffled.
	rest := fields[1:]
	if q.Join != "" {
		rest = nil // a joined relation has to be declared before it is referred to
	}
	g.r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	b := g.file(q.File)
	fmt.Fprintf(b, "type %s struct {\n", q.Name)
	for _, f := range fields {
		b.WriteString("\t" + f + "\n")
	}
	b.WriteString("}\n\n")
	g.spec.Queries = append(g.spec.Queries, q)

	ctxArg := ""
	if q.CtxArg {
		ctxArg = "ctx, "
	}
	fmt.Fprintf(reg, "\tqrt.Register(&qrt.Entry{\n\t\tKey: %q,\n\t\tNew: func() interface{} { return new(%s) },\n", p.name+"."+q.Name, q.Name)
	fmt.Fprintf(reg, "\t\tExec: func(q interface{}, ctx context.Context, c gosql.Conn) error { return q.(*%s).%s(%sc) },\n", q.Name, p.method, ctxArg)
	if q.FT != nil {
		fmt.Fprintf(reg, "\t\tNewFilter: func() interface{} { return new(%s) },\n", q.FT.Name)
	}
	if len(iters) > 0 {
		fmt.Fprintf(reg, "\t\tSetIter: func(q interface{}, f func(interface{}) error) { %s },\n", iters[len(iters)-1])
	}
	reg.WriteString("\t})\n")
}

// the field types that filters take values of
var qFilterTypes = map[string][]string{
	"text": {"string", "string", "*string", "qrt.Str"}, "int4": {"int", "int32", "int64", "*int", "*int64", "int16", "qrt.Int"}, "int8": {"int64", "int", "*int64", "qrt.Int"},
	"bool": {"bool", "bool", "*bool"}, "float8": {"float64", "*float64"}, "timestamptz": {"time.Time"}, "uuid": {"string"}, "varchar": {"string", "*string"},
	"numeric": {"string", "float64"}, "date": {"string", "time.Time"}, "timestamp": {"time.Time"}, "int2": {"int16", "int", "qrt.Int"}, `"Mood"`: {"string"},
}

// filterType writes a filter type for the relation of a query.
func (g *qg) filterType(p *qpkg, q *qspec.Query, rid string) *qspec.FilterType {
	g.n++
	ft := &qspec.FilterType{Name: fmt.Sprintf("FilterQ%d", g.n), V2: g.chance(0.6)}
	keys, methods := map[string]bool{}, map[string]bool{}
	type node struct{ name, tag, fck string }
	var write func(cols []qspec.Col, path []node) string
	write = func(cols []qspec.Col, path []node) string {
		src := ""
		prefix := ""
		for _, n := range path {
			prefix += n.name
		}
		for len(cols) > 0 {
			if len(path) < 2 && len(cols) > 1 && g.chance(0.25) { // a nested struct with some of them
				k := 1 + g.r.Intn(len(cols))
				n := node{g.pick("Sub", "Nest", "Deep"), g.pick("", "sub", "nn", "Sub", "-"), ""}
				if !methods[prefix+"."+n.name] {
					methods[prefix+"."+n.name] = true
					tag := ""
					if n.tag != "" {
						tag = fmt.Sprintf(` json:"%s"`, n.tag)
					}
					if g.chance(0.2) {
						n.fck = g.pick("tag:,sep:_", "tag:,sep:.", "sep:_", "base:true", "tag:bson,sep:_")
						tag += fmt.Sprintf(` fck:"%s"`, n.fck)
					}
					in := write(cols[:k], append(append([]node(nil), path...), n))
					src += fmt.Sprintf("\t%s struct {\n%s} `sql:\">\"%s`\n", n.name, in, tag)
					cols = cols[k:]
					continue
				}
			}
			c := cols[0]
			cols = cols[1:]
			f := &qspec.FilterField{Col: c.Name, CT: c.CT, Nullable: c.Nullable, GoT: g.pick(qFilterTypes[c.CT]...)}
			n := node{camel(c.Name), g.pick("k_"+strings.ToLower(c.Name), strings.ToLower(c.Name), "key", "", "-", c.Name), ""}
			f.Method = prefix + n.name
			if methods[f.Method] {
				continue
			}
			methods[f.Method] = true
			tag := ""
			if n.tag != "" {
				tag = fmt.Sprintf(` json:"%s%s"`, n.tag, g.pick("", "", ",omitempty"))
			}
			if g.chance(0.35) {
				n.fck = g.pick("tag:,sep:_", "tag:,sep:.", "base:true", "sep:_", "tag:,base:true")
				tag += fmt.Sprintf(` fck:"%s"`, n.fck)
			}
			// the key: the options are the field's, or else those of the
			// outermost struct around it that has any, from which on the names count
			sel, opts := path, n.fck
			for i := 0; opts == "" && i < len(path); i++ {
				if path[i].fck != "" {
					sel, opts = path[i:], path[i].fck
				}
			}
			sep, byName, bson := ".", strings.Contains(opts, "tag:,"), strings.Contains(opts, "tag:bson")
			if strings.Contains(opts, "sep:_") {
				sep = "_"
			}
			all := append(append([]node(nil), sel...), n)
			if strings.Contains(opts, "base:true") {
				all = all[len(all)-1:]
			}
			var parts []string
			for _, x := range all {
				switch {
				case byName:
					parts = append(parts, x.name)
				case bson || x.tag == "":
				case x.tag == "-":
					parts = []string{""}
				case len(parts) == 0 || parts[0] != "":
					parts = append(parts, x.tag)
				}
				if len(parts) > 0 && parts[0] == "" {
					break
				}
			}
			if len(parts) > 0 && parts[0] != "" {
				f.Key = strings.Join(parts, sep)
			}
			if keys[f.Key] {
				f.Key = "" // that of another one
			}
			keys[f.Key] = true
			f.Conv = p.name == "p3" && ft.V2 && f.GoT == "qrt.Int"
			src += fmt.Sprintf("\t%s %s `sql:\"%s\"%s`\n", n.name, f.GoT, c.Name, tag)
			ft.Fields = append(ft.Fields, f)
		}
		return src
	}
	var cols, all []qspec.Col
	for _, c := range qTables[q.Table].Cols {
		if qFilterTypes[c.CT] == nil || p.name != "p3" && (c.Name == "order" || c.Name != strings.ToLower(c.Name)) {
			continue // without -qid the columns of filters are not quoted
		}
		if all = append(all, c); g.chance(0.7) {
			cols = append(cols, c)
		}
	}
	if len(cols) == 0 {
		cols = all[:1]
	}
	g.r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	cols = append([]qspec.Col(nil), cols...)
	src := write(cols, nil)
	b := g.file(fmt.Sprintf("%s/f%d.go", p.name, g.r.Intn(6)))
	tag := ""
	if ft.V2 {
		tag = " `filter:\"v2\"`"
	}
	ts := ""
	if q.Table == "child" && g.chance(0.7) {
		ft.TS = q.Qual("_doc")
		ts = fmt.Sprintf("\t_ gosql.TextSearch `sql:\"%s_doc\"`\n", map[bool]string{true: q.Alias + "."}[q.Alias != ""])
	}
	if g.chance(0.3) {
		fmt.Fprintf(b, "type %s struct {\n\t_ struct {\n%s} `rel:\"%s\"`\n%s\tfilter.Constructor%s\n}\n\n", ft.Name, src, rid, ts, tag)
	} else {
		fmt.Fprintf(b, "type Rec%s struct {\n%s}\n\ntype %s struct {\n\t_ *Rec%s `rel:\"%s\"`\n%s\tfilter.Constructor%s\n}\n\n", ft.Name, src, ft.Name, ft.Name, rid, ts, tag)
	}
	return ft
}

// joins draws join directives; from are the relations that they may refer to.
func (g *qg) joins(from map[string]string, n int, outer bool, joined func(rel, alias string)) (src, sql string) {
	ints := map[string][]string{"acct": {"id", "n"}, "child": {"id", "acct_id", "qty"}, "pair": {"a", "cnt"}, "log": {"k", "w"}, "odd": {"ID", "camelCase"}}
	texts := map[string]string{"acct": "note", "child": "label", "pair": "val", "log": "v", "odd": "order"}
	for i := 0; i < n; i++ {
		rel, alias := g.pick("child", "child", "pair", "log", "acct", "odd"), fmt.Sprintf("z%d", i)
		types := []string{"Inner", "Inner", "Left", "Left", "Cross"}
		if outer {
			types = append(types, "Right", "Full")
		}
		typ := g.pick(types...)
		var conds, tags []string
		sep, and := ",", " AND "
		if g.chance(0.3) {
			sep, and = ";", " OR "
		}
		var names []string
		for a := range from {
			names = append(names, a)
		}
		sort.Strings(names)
		k := 1 + g.r.Intn(3)
		if typ == "Cross" || g.chance(0.15) && typ != "Full" {
			k = 0
		}
		if typ == "Full" { // what PostgreSQL can do
			k, and = 1, " AND "
		}
		for j := 0; j < k; j++ {
			col := g.pick(ints[rel]...)
			other := g.pick(names...)
			oc := g.pick(ints[from[other]]...)
			op := g.pick("=", "=", "=", "<", ">=", "<>")
			if typ == "Full" {
				op = "="
			}
			switch x := g.r.Intn(6); {
			case x < 4 || j == 0:
				tags = append(tags, fmt.Sprintf("%s.%s %s %s.%s", alias, col, op, other, oc))
				conds = append(conds, fmt.Sprintf(`%s."%s" %s %s."%s"`, alias, col, op, other, oc))
			case x == 4:
				tags = append(tags, fmt.Sprintf("%s.%s%s2", alias, col, op))
				conds = append(conds, fmt.Sprintf(`%s."%s" %s 2`, alias, col, op))
			default:
				tags = append(tags, fmt.Sprintf("%s.%s notnull", alias, texts[rel]))
				conds = append(conds, fmt.Sprintf(`%s."%s" IS NOT NULL`, alias, texts[rel]))
			}
		}
		tag := strings.Join(append([]string{qTables[rel].FullName() + ":" + alias}, strings.Join(tags, sep)), ",")
		if k == 0 {
			tag = qTables[rel].FullName() + ":" + alias
		}
		src += fmt.Sprintf("\t\t_ gosql.%sJoin `sql:\"%s\"`\n", typ, tag)
		sql += fmt.Sprintf("\n%s JOIN %s AS %s", strings.ToUpper(typ), qTables[rel].FullName(), alias)
		switch {
		case typ == "Cross":
		case k == 0:
			sql += " ON true"
		default:
			sql += " ON " + strings.Join(conds, and)
		}
		from[alias] = rel
		joined(rel, alias)
	}
	return src, sql
}

func qualify(id string, cols []string) string {
	var l []string
	for _, c := range cols {
		l = append(l, id+"."+c)
	}
	return strings.Join(l, ",")
}

// tagCol turns a quoted column reference into the form used in tags.
func tagCol(s string) string { return strings.ReplaceAll(s, `"`, "") }

func leafOf(r *qspec.Rec, col string) *qspec.Leaf {
	if r == nil {
		return nil
	}
	for _, l := range r.Leaves {
		if l.Col == col {
			return l
		}
	}
	return nil
}

func (g *qg) order(q *qspec.Query, id string, add func(string, ...interface{}), total bool) {
	t := qTables[q.Table]
	if len(t.PK) == 0 && total {
		return
	}
	var sqls, tags []string
	used := map[string]bool{}
	one := func(c qspec.Col) {
		if used[c.Name] || c.CT == "jsonb" {
			return
		}
		used[c.Name] = true
		tag, sql := id+"."+c.Name, q.Qual(c.Name)
		if g.chance(0.4) {
			tag, sql = "-"+tag, sql+" DESC"
		} else {
			sql += " ASC"
		}
		switch {
		case g.chance(0.3):
			tag += ":nullsfirst"
			sql += " NULLS FIRST"
		case g.chance(0.3):
			tag += ":nullslast"
			sql += " NULLS LAST"
		default:
			sql += " NULLS LAST"
		}
		tags, sqls = append(tags, tag), append(sqls, sql)
	}
	for n := g.r.Intn(3); n > 0; n-- {
		c := t.Cols[g.r.Intn(len(t.Cols))]
		if !c.Nullable && g.chance(0.6) {
			c = t.Cols[g.r.Intn(len(t.Cols))]
		}
		one(c)
	}
	if total || g.chance(0.5) {
		for _, c := range t.PK {
			one(*t.Col(c))
		}
	}
	if len(sqls) == 0 {
		one(t.Cols[0])
	}
	pk := len(t.PK) > 0
	for _, c := range t.PK {
		pk = pk && used[c]
	}
	q.TotalOrder = pk
	if q.Join != "" {
		q.TotalOrder = false
	}
	q.Order = strings.Join(sqls, ", ")
	add("_ gosql.OrderBy `sql:\"%s\"`", strings.Join(tags, ","))
}

var qCondGo = map[string][]string{"text": {"string", "qrt.Str"}, "int4": {"int", "int32", "qrt.Int", "int64"}, "int8": {"int64", "int"}, "bool": {"bool"},
	"float8": {"float64"}, "uuid": {"string"}, "timestamptz": {"time.Time"}, "bytea": {"[]byte"},
	`"Mood"`: {"string"}, "numeric": {"float64", "string"}, "date": {"string", "time.Time"}, "timestamp": {"time.Time"}, "int2": {"int", "int16"}, "float4": {"float64"}}

// conds draws the conditions of a where struct.
func (g *qg) conds(q *qspec.Query, table, id string, n, depth int) (conds []*qspec.Cond, tags []string) {
	t := qTables[table]
	ind := strings.Repeat("\t", depth+2)
	for len(conds) < n {
		c := t.Cols[g.r.Intn(len(t.Cols))]
		goTs := qCondGo[c.CT]
		g.n++
		x := &qspec.Cond{Field: fmt.Sprintf("W%d", g.n), CT: c.CT}
		or := ""
		if len(conds) > 0 && g.chance(0.4) {
			x.Or = true
			or = ` bool:"or"`
		} else if len(conds) > 0 && g.chance(0.2) {
			or = ` bool:"and"`
		}
		col, tcol := q.Qual(c.Name), id+"."+c.Name
		if q.Alias == "" && g.chance(0.3) {
			tcol = c.Name // the relation's own columns need no qualifier
			tcol = id + "." + c.Name
		}
		line := func(typ, sql string) {
			tags = append(tags, fmt.Sprintf("%s%s %s `sql:\"%s\"%s`\n", ind, x.Field, typ, sql, or))
		}
		switch k := g.r.Intn(12); {
		case k < 5: // comparison
			if goTs == nil {
				continue
			}
			x.Kind, x.GoT = "field", g.pick(goTs...)
			op := [][2]string{{"=", ""}, {"=", " ="}, {"<>", " <>"}, {"<", " <"}, {">", " >"}, {"<=", " <="}, {">=", " >="},
				{"IS DISTINCT FROM", " isdistinct"}, {"IS NOT DISTINCT FROM", " notdistinct"}}
			if c.CT == "bool" || c.CT == "uuid" || c.CT == "bytea" {
				op = op[:3]
			}
			if c.CT == "text" {
				op = append(op, [][2]string{{"~", " ~"}, {"~*", " ~*"}, {"!~", " !~"}, {"LIKE", " islike"}, {"NOT LIKE", " notlike"}, {"ILIKE", " isilike"}, {"NOT ILIKE", " notilike"}}...)
			}
			o := op[g.r.Intn(len(op))]
			if c.CT == "text" && g.chance(0.2) { // a function of both sides
				f := g.pick("lower", "upper", "btrim")
				x.Kind = "func"
				x.L, x.R = fmt.Sprintf("%s(%s) %s %s(", f, col, o[0], f), ")"
				line(x.GoT, tcol+o[1]+",@"+g.pick(f, strings.ToUpper(f)))
				break
			}
			x.L = col + " " + o[0]
			line(x.GoT, tcol+o[1])
		case k < 7: // in
			it := map[string]string{"int4": "int", "text": "string", "int8": "int64", "numeric": "float64", "int2": "int16"}[c.CT]
			if it == "" {
				continue
			}
			x.Kind, x.GoT = "in", "[]"+it
			x.L = col + " IN"
			op := "isin"
			if g.chance(0.35) {
				x.L, op = col+" NOT IN", "notin"
			}
			line(x.GoT, tcol+" "+op)
		case k < 8: // quantified
			it := map[string]string{"int4": "int", "text": "string", "int2": "int"}[c.CT]
			if it == "" {
				continue
			}
			x.Kind, x.GoT = "any", "[]"+it
			x.CT = c.CT + "[]"
			o := g.pick("=", "<>", ">", "<")
			qn := g.pick("any", "some", "all")
			x.L, x.R = fmt.Sprintf("%s %s %s(", col, o, strings.ToUpper(qn)), ")"
			line(x.GoT, tcol+" "+o+" "+qn)
		case k < 9: // between
			if c.CT != "int4" && c.CT != "int8" && c.CT != "float8" && c.CT != "date" && c.CT != "int2" && c.CT != "numeric" {
				continue
			}
			x.Kind = "between"
			x.GoT = g.pick(goTs...)
			op := g.pick("isbetween", "notbetween", "isbetweensym", "notbetweensym")
			x.Not = strings.HasPrefix(op, "not")
			x.L = col + " " + map[string]string{"isbetween": "BETWEEN", "notbetween": "NOT BETWEEN", "isbetweensym": "BETWEEN SYMMETRIC", "notbetweensym": "NOT BETWEEN SYMMETRIC"}[op]
			var inner string
			x.X, x.Y = "Lo", "Hi"
			inner = fmt.Sprintf("%s\tLo %s `sql:\"x\"`\n%s\tHi %s `sql:\"y\"`\n", ind, x.GoT, ind, x.GoT)
			if g.chance(0.3) && c.CT == "int4" {
				x.Y, x.YS = "", col
				inner = fmt.Sprintf("%s\tLo %s `sql:\"x\"`\n%s\t_ gosql.Column `sql:\"%s,y\"`\n", ind, x.GoT, ind, tcol)
			}
			if g.chance(0.4) { // the order of the fields does not matter
				l := strings.SplitAfter(inner, "\n")
				inner = l[1] + l[0]
			}
			tags = append(tags, fmt.Sprintf("%s%s struct {\n%s%s} `sql:\"%s %s\"%s`\n", ind, x.Field, inner, ind, tcol, op, or))
		case k < 11: // no value
			x.Kind = "fixed"
			x.Field = ""
			tag := ""
			switch {
			case c.Nullable && g.chance(0.7):
				op := [][2]string{{"IS NULL", "isnull"}, {"IS NOT NULL", "notnull"}}
				if c.CT == "bool" {
					op = append(op, [][2]string{{"IS TRUE", "istrue"}, {"IS NOT TRUE", "nottrue"}, {"IS FALSE", "isfalse"}, {"IS NOT FALSE", "notfalse"}, {"IS UNKNOWN", "isunknown"}, {"IS NOT UNKNOWN", "notunknown"}}...)
				}
				o := op[g.r.Intn(len(op))]
				x.SQL, tag = col+" "+o[0], tcol+" "+o[1]
			case c.CT == "bool":
				x.SQL, tag = col+" IS TRUE", tcol
			case c.CT == "int4" && g.chance(0.5):
				o, v := g.pick("<", ">", "<>", "=", "<=", ">="), g.pick("2", "-1", "100", "1+2")
				x.SQL, tag = fmt.Sprintf("%s %s %s", col, o, v), tcol+o+v
			case c.CT == "text" && g.chance(0.5):
				o, v := g.pick("<", ">", "<>", "="), g.pick("'a'", "'nm1'", "''")
				x.SQL, tag = fmt.Sprintf("%s %s %s", col, o, v), tcol+o+v
			case table == "odd" && c.Name == "ID":
				o := g.pick("<", ">", "<>", "=")
				x.SQL, tag = fmt.Sprintf("%s %s %s", col, o, q.Qual("camelCase")), fmt.Sprintf("%s%s%s.camelCase", tcol, o, id)
			case table == "acct" && c.CT == "int4":
				o := g.pick("<", ">", "<>", "=")
				other := "n"
				if c.Name == "n" {
					other = "id"
				}
				x.SQL, tag = fmt.Sprintf("%s %s %s", col, o, q.Qual(other)), fmt.Sprintf("%s%s%s.%s", tcol, o, id, other)
			default:
				continue
			}
			tags = append(tags, fmt.Sprintf("%s_ gosql.Column `sql:\"%s\"%s`\n", ind, tag, or))
		default: // nested
			if depth >= 2 {
				continue
			}
			x.Kind = "nest"
			var sub []string
			x.Sub, sub = g.conds(q, table, id, 1+g.r.Intn(3), depth+1)
			tags = append(tags, fmt.Sprintf("%s%s struct {\n%s%s} `sql:\">\"%s`\n", ind, x.Field, strings.Join(sub, ""), ind, or))
		}
		conds = append(conds, x)
	}
	return conds, tags
}

// ToolFailure is a refusal of the tool, or code that does not compile.
type ToolFailure struct{ Msg string }

func (e *ToolFailure) Error() string { return e.Msg }

// BuildQueries generates the sources, runs the current tool on them and
// adds everything to the overlay.
func BuildQueries(dir string, seed int64, total int, db string, overlay map[string]string) (*qspec.Spec, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	spec, err := GenQueries(dir, seed, total)
	if err != nil {
		return nil, err
	}
	mod := fmt.Sprintf("module github.com/frk/gosql/zzsim/qgen\n\ngo 1.21\n\nrequire github.com/frk/gosql v0.0.0\n\nreplace github.com/frk/gosql => %s\n", repoDir)
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(mod), 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(filepath.Join(dir, "qrt"), 0o755); err != nil {
		return nil, err
	}
	src, err := os.ReadFile(filepath.Join(verifDir, "virt", "qrt", "qrt.go"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "qrt", "qrt.go"), src, 0o644); err != nil {
		return nil, err
	}
	tool := filepath.Join(scratch, "gosql-tool")
	if _, err := os.Stat(tool); err != nil {
		cmd := exec.Command("go", "build", "-o", tool, "./cmd/gosql")
		cmd.Dir = repoDir
		if out, err := cmd.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("go build ./cmd/gosql: %v\n%s", err, out)
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, len(qpkgs))
	for i, p := range qpkgs {
		wg.Add(1)
		go func(i int, p *qpkg) {
			defer wg.Done()
			args := append([]string{"-db", fmt.Sprintf("postgres://postgres@:5432/%s?host=%s&sslmode=disable", db, cluster.Dir), "-wd", filepath.Join(dir, p.name)}, p.flags...)
			if p.config != "" {
				f := filepath.Join(scratch, p.name+".json")
				if err := os.WriteFile(f, []byte(p.config), 0o644); err != nil {
					errs[i] = err
					return
				}
				args = append(args, "--config", f)
			}
			cmd := exec.Command(tool, args...)
			cmd.Dir = filepath.Join(dir, p.name)
			cmd.Env = append(os.Environ(), "NO_COLOR=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				s := string(out)
				if len(s) > 3000 {
					s = s[:3000]
				}
				errs[i] = &ToolFailure{fmt.Sprintf("gosql refuses the query types of %s: %v\n%s", p.name, err, s)}
			}
		}(i, p)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	b, err := json.Marshal(spec)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "spec.json"), b, 0o644); err != nil {
		return nil, err
	}
	return spec, overlayQueries(dir, overlay)
}

func overlayQueries(dir string, overlay map[string]string) error {
	return filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		overlay[filepath.Join(repoDir, "zzsim", "qgen", rel)] = path
		return nil
	})
}

func devQgen(dir string) error {
	var err error
	if cluster, err = StartPG(scratch); err != nil {
		return err
	}
	if err := cluster.Script("postgres", "CREATE DATABASE q"); err != nil {
		return err
	}
	if err := cluster.Script("q", qSchema); err != nil {
		return err
	}
	ov := map[string]string{}
	spec, err := BuildQueries(dir, verifSeed(), 240, "q", ov)
	if err != nil {
		return err
	}
	fmt.Println(len(spec.Queries), "queries")
	cmd := exec.Command("go", "build", "./...")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v\n%s", err, out)
	}
	return nil
}
