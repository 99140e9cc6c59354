package main

import (
	"bytes"
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

var rxConv = regexp.MustCompile(`^(.+?)(From|To)([A-Z].*)$`)

// pgTypeOf maps the prefix of the converters' names to the column type.
func pgTypeOf(prefix string) string {
	arr := strings.HasSuffix(prefix, "Array")
	t := strings.ToLower(strings.TrimSuffix(prefix, "Array"))
	if arr {
		t += "[]"
	}
	return t
}

// Registry lists every exported converter of pgsql, found by signature.
func Registry(pkg *types.Package) (src []byte, pgTypes []string, count int, err error) {
	type ent struct{ name, pg, typ, from, to string }
	ents := map[string]*ent{}
	imports := map[string]string{}
	qual := func(p *types.Package) string { imports[p.Path()] = p.Name(); return p.Name() }
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			continue
		}
		res := sig.Results().At(0).Type()
		isV, isS := hasMethod(res, "Value"), hasMethod(res, "Scan")
		if isV && isS {
			// JSON, XML
			pg := strings.ToLower(n)
			goTypes := []string{"map[string]interface{}", "[]int", "PT", "interface{}", "string", "*PT", "map[string]int"}
			if pg == "xml" {
				goTypes = []string{"PT", "*PT"}
			}
			for _, gt := range goTypes {
				for _, p := range []string{pg, "jsonb"} {
					if p == "jsonb" && pg != "json" {
						continue
					}
					k := n + ":" + gt + ":" + p
					ents[k] = &ent{name: n + ":" + gt, pg: p, typ: gt, from: n, to: n}
				}
			}
			count += 2
			continue
		}
		m := rxConv.FindStringSubmatch(n)
		if m == nil {
			continue
		}
		pt := sig.Params().At(0).Type()
		if isS {
			p, ok := pt.(*types.Pointer)
			if !ok {
				continue
			}
			pt = p.Elem()
		}
		if !isV && !isS {
			continue
		}
		count++
		ts := types.TypeString(pt, qual)
		k := m[1] + ":" + ts
		e := ents[k]
		if e == nil {
			e = &ent{name: m[1] + ":" + ts, pg: pgTypeOf(m[1]), typ: ts}
			ents[k] = e
		}
		if isV {
			e.from = n
		} else {
			e.to = n
		}
	}
	var keys []string
	for k := range ents {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b bytes.Buffer
	b.WriteString("package main\n\nimport (\n\t\"database/sql\"\n\t\"database/sql/driver\"\n\t\"reflect\"\n\n\t\"github.com/frk/gosql/pgsql\"\n")
	var ips []string
	for p := range imports {
		ips = append(ips, p)
	}
	sort.Strings(ips)
	for _, p := range ips {
		if p != "database/sql" && p != "database/sql/driver" && p != "reflect" {
			fmt.Fprintf(&b, "\t%q\n", p)
		}
	}
	b.WriteString(")\n\n// PT is decoded from json and xml.\ntype PT struct {\n\tX int\n\tY string\n\tL []string\n\tN *int\n\tM map[string]int `xml:\"-\"`\n}\n\n")
	b.WriteString("func vr(v driver.Valuer) driver.Valuer { return v }\nfunc sc(s sql.Scanner) sql.Scanner { return s }\n\nvar Registry = []*Entry{\n")
	seen := map[string]bool{}
	emitted := 0
	for _, k := range keys {
		e := ents[k]
		pgs := []string{e.pg}
		if e.pg == "any" {
			pgs = []string{"text", "bytea", "json", "int4", "timestamptz", "int4[]"}
		}
		for _, pg := range pgs {
			if _, ok := literals[strings.TrimSuffix(pg, "[]")]; !ok {
				return nil, nil, 0, fmt.Errorf("no literals for %s (%s)", pg, e.name)
			}
			if !seen[pg] {
				seen[pg] = true
				pgTypes = append(pgTypes, pg)
			}
			fmt.Fprintf(&b, "\t{Name: %q, PG: %q, Type: reflect.TypeOf((*%s)(nil)).Elem(), FromName: %q, ToName: %q,\n", e.name, pg, e.typ, e.from, e.to)
			arg := fmt.Sprintf("v.(%s)", e.typ)
			if e.typ == "interface{}" {
				arg = "v"
			}
			if e.from != "" {
				fmt.Fprintf(&b, "\t\tFrom: func(v interface{}) driver.Valuer { return vr(pgsql.%s(%s)) },\n", e.from, arg)
			}
			if e.to != "" {
				fmt.Fprintf(&b, "\t\tTo: func(p interface{}) sql.Scanner { return sc(pgsql.%s(p.(*%s))) },\n", e.to, e.typ)
			}
			b.WriteString("\t},\n")
			emitted++
		}
	}
	b.WriteString("}\n")
	if emitted == 0 {
		return nil, nil, 0, fmt.Errorf("no converters found in pgsql")
	}
	return b.Bytes(), pgTypes, count, nil
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, name) != nil || lookupExported(ms, name)
}

func lookupExported(ms *types.MethodSet, name string) bool {
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}
