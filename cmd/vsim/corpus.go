package main

import (
	"context"
	"database/sql/driver"
	"encoding/base64"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
)

type dval struct {
	K string `json:"k"`
	V string `json:"v"`
}

func encodeDVal(v driver.Value) dval {
	switch x := v.(type) {
	case []byte:
		return dval{"bytes", base64.StdEncoding.EncodeToString(x)}
	case string:
		return dval{"string", base64.StdEncoding.EncodeToString([]byte(x))}
	case int64:
		return dval{"int", strconv.FormatInt(x, 10)}
	case float64:
		return dval{"float", strconv.FormatFloat(x, 'g', -1, 64)}
	case bool:
		return dval{"bool", strconv.FormatBool(x)}
	case time.Time:
		_, off := x.Zone()
		return dval{"time", x.Format(time.RFC3339Nano) + "|" + strconv.Itoa(off)}
	}
	return dval{"nil", ""}
}

// literals per element type; the server normalises them and refuses what is
// not valid for a type.
var literals = map[string][]string{
	"int2":        {"0", "1", "-1", "7", "42", "-32768", "32767", "255", "127", "100"},
	"int4":        {"0", "1", "-1", "7", "42", "-2147483648", "2147483647", "65535", "200", "99"},
	"int8":        {"0", "1", "-1", "7", "42", "-9223372036854775808", "9223372036854775807", "4294967295", "123", "250"},
	"numeric":     {"0", "1", "-1", "42", "123456789", "9223372036854775807", "100", "17", "3", "254"},
	"float4":      {"0", "1", "-1.5", "0.25", "1e10", "3.1415", "NaN", "Infinity", "100000"},
	"float8":      {"0", "1", "-1.5", "0.25", "1e100", "3.14159265358979", "NaN", "-Infinity", "123456.789"},
	"bool":        {"t", "f"},
	"text":        {"", "a", "foo bar", `q"uo"te`, `back\slash`, "{}", "{,}", "NULL", "null", "é日本", "line\nbreak", "a,b", `"`, `\`, " lead", "tab\tx", "'"},
	"varchar":     {"", "a", "foo bar", `q"uo"te`, `back\slash`, "{}", "NULL", "é日本", "a,b", `\"`, "(x)"},
	"bpchar":      {"a", "b", "foo", "é", "z", " ", "Ω", "日", "{", `"`, ","},
	"char":        {"a", "b", "Z", "0", `"`, `\`, ",", "{", " ", "x"},
	"bytea":       {`\x`, `\x00`, `\xdeadbeef`, `\x61626364`, `\xff00ff00ff`, `\x5c5c`, `\x0a0d`},
	"bit":         {"0", "1"},
	"varbit":      {"", "0", "1", "1010", "11111111", "00000000", "1000000000000001", "101010101", "0110"},
	"box":         {"(1,2),(3,4)", "(0,0),(0,0)", "(-1.5,2.25),(1e5,0.001)", "(7,8),(5,6)"},
	"circle":      {"<(1,2),3>", "<(0,0),0>"},
	"line":        {"{1,2,3}", "{-1,0.5,0}", "{0,1,-7}"},
	"lseg":        {"[(1,2),(3,4)]", "[(0,0),(0,0)]", "[(-1.5,2),(3,1e6)]"},
	"path":        {"[(1,2),(3,4)]", "((1,2),(3,4),(5,6))", "[(0,0)]", "((1.5,-2))", "[(1,1),(2,2),(3,3),(4,4),(5,5)]"},
	"point":       {"(1,2)", "(0,0)", "(-1.5,2.25)", "(1e10,-1e-5)"},
	"polygon":     {"((1,2),(3,4))", "((0,0))", "((1,1),(2,2),(3,3))", "((-1.5,2),(3,4),(5,6),(7,8))"},
	"cidr":        {"192.168.0.0/24", "10.0.0.0/8", "::/0", "2001:db8::/32", "1.2.3.4/32"},
	"inet":        {"192.168.0.1/24", "10.0.0.1", "::1", "2001:db8::1/64", "0.0.0.0", "127.0.0.1/8"},
	"macaddr":     {"08:00:2b:01:02:03", "00:00:00:00:00:00", "ff:ff:ff:ff:ff:ff"},
	"macaddr8":    {"08:00:2b:01:02:03:04:05", "00:00:00:00:00:00:00:00", "ff:ff:ff:ff:ff:ff:ff:ff"},
	"date":        {"1999-01-08", "2001-05-11", "0001-01-01", "2020-02-29", "9999-12-31"},
	"time":        {"00:00:00", "23:59:59.999999", "04:05:06.789", "12:00:00"},
	"timetz":      {"00:00:00+00", "23:59:59.999999+02", "04:05:06-08", "12:00:00+05:30"},
	"timestamp":   {"1999-01-08 04:05:06", "2001-05-11 00:00:00", "2020-02-29 23:59:59.999999", "1970-01-01 00:00:00"},
	"timestamptz": {"1999-01-08 04:05:06+02", "2001-07-11 00:00:00+00", "2020-02-29 23:59:59.999999-08", "1970-01-01 00:00:00+00"},
	"interval":    {"1 day", "1 year 2 mons", "-3 days 04:05:06", "00:00:00"},
	"money":       {"$0.00", "$1.23", "-$99.99", "$1,234,567.89", "$0.07"},
	"uuid":        {"a0eebc99-9c0b-4ef8-bb6d-6bb9bd380a11", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"},
	"hstore":      {"", "a=>1", "a=>NULL", `a=>1, b=>2, c=>NULL`, `"k y"=>"v \"q\" x", z=>""`, `"a,b"=>"c=>d", "\\"=>"\\\\"`, `d=>4`, `e=>NULL, f=>6`},
	"json":        {"null", "1", `"s"`, "[]", "{}", `{"a":1,"b":2}`, `{"b":[1,2],"c":null}`, "[1,2,3]", `[4]`, `["x","y"]`, `{"X":3,"Y":"why"}`, `{"Y":"only"}`, "true", "1.5", `{"X":9}`, "{ \"a\" : 1 ,\n  \"b\" : [ 1 , 2 ]\n}", " 1 ", "\t[1,\n2]"},
	"jsonb":       {"null", "1", `"s"`, "[]", "{}", `{"a":1,"b":2}`, `{"b":[1,2],"c":null}`, "[1,2,3]", `[4]`, `["x","y"]`, `{"X":3,"Y":"why"}`, `{"Y":"only"}`, "true"},
	"xml":         {"<a>1</a>", "<P><X>3</X><Y>why</Y></P>", "<P><Y>only</Y></P>", "<P/>", "<P><X>9</X></P>", "<P><L>a</L><L>b</L></P>", "<P><L>c</L></P>", " <a>\n <b>1</b>\n</a> "},
	"tsquery":     {"'a'", "'a' & 'b'", "'fat' & ( 'cat' | 'rat' )", "!'x'", "'a':*", `'q"uo'`},
	"tsvector":    {"", "'a' 'b'", "'a':1 'b':2", "'fat':2,4 'cat':3", `'q"uo' 'z'`, `'back\\slash'`},
	"int4range":   {"empty", "[1,10)", "[,5)", "[3,)", "(,)", "[-7,7)", "[0,1)"},
	"int8range":   {"empty", "[1,10)", "[,5)", "[3,)", "(,)", "[-7,7)", "[0,200)"},
	"numrange":    {"empty", "[1,10)", "[,5)", "[3,)", "(,)", "(1,2]", "[0,200]"},
	"daterange":   {"empty", "[2001-01-01,2002-01-01)", "[,2001-05-05)", "[1999-01-08,)", "(,)"},
	"tsrange":     {"empty", "[2001-01-01 00:00:00,2002-01-01 12:30:00)", "[,2001-05-05 00:00:00)", "[1999-01-08 04:05:06.789,)", "(,)"},
	"tstzrange":   {"empty", "[2001-01-01 00:00:00+00,2002-01-01 12:30:00+02)", "[,2001-05-05 00:00:00+00)", "[1999-01-08 04:05:06.789-08,)", "(,)"},
	"int2vector":  {"", "1", "1 2 3", "-1 0 32767", "7 7"},
}

func pgQuoteElem(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

// candidates returns literals for a type, arrays included.
func candidates(typ string, rng *rand.Rand) []string {
	if !strings.HasSuffix(typ, "[]") {
		return literals[typ]
	}
	el := literals[strings.TrimSuffix(typ, "[]")]
	out := []string{"{}"}
	for i := 0; i < 24; i++ {
		n := 1 + rng.Intn(4)
		if i < 4 {
			n = 1 + i
		}
		parts := make([]string, n)
		for j := range parts {
			if i%3 == 2 && rng.Intn(3) == 0 {
				parts[j] = "NULL"
				continue
			}
			parts[j] = pgQuoteElem(el[rng.Intn(len(el))])
		}
		sep := ","
		if typ == "box[]" {
			sep = ";"
		}
		out = append(out, "{"+strings.Join(parts, sep)+"}")
	}
	return out
}

// typeName is the SQL name of a type.
func sqlTypeName(t string) string {
	switch t {
	case "char":
		return `"char"`
	case "char[]":
		return `"char"[]`
	case "bpchar":
		return "char(1)"
	case "bpchar[]":
		return "char(1)[]"
	}
	return t
}

// Corpus asks the server for the values of each type, as the driver hands them out.
func Corpus(conn driver.Conn, types []string, seed int64) (map[string][]dval, error) {
	out := map[string][]dval{}
	sort.Strings(types)
	for i, t := range types {
		if _, ok := out[t]; ok {
			continue
		}
		rng := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		seen := map[dval]bool{}
		for _, lit := range candidates(t, rng) {
			q := "SELECT ($1::text)::" + sqlTypeName(t)
			rows, err := conn.(driver.QueryerContext).QueryContext(context.Background(), q, []driver.NamedValue{{Ordinal: 1, Value: lit}})
			if err != nil {
				continue
			}
			dest := make([]driver.Value, 1)
			err = rows.Next(dest)
			d := encodeDVal(dest[0]) // before Close: the bytes are the driver's
			rows.Close()
			if err != nil {
				if err == io.EOF {
					return nil, fmt.Errorf("no row for %s %q", t, lit)
				}
				continue
			}
			if d.K == "time" {
				// the text form, as drivers that do not decode it hand it out
				rows, err := conn.(driver.QueryerContext).QueryContext(context.Background(), "SELECT convert_to((($1::text)::"+sqlTypeName(t)+")::text, 'UTF8')", []driver.NamedValue{{Ordinal: 1, Value: lit}})
				if err == nil {
					if rows.Next(dest) == nil {
						out[t] = append(out[t], encodeDVal(dest[0]))
					}
					rows.Close()
				}
			}
			if !seen[d] {
				seen[d] = true
				out[t] = append(out[t], d)
			}
		}
		if len(out[t]) == 0 {
			return nil, fmt.Errorf("no literal of type %s is accepted", t)
		}
	}
	return out, nil
}
