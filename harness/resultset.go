package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
)

func init() { register("resultset", runResultSet) }

type rsVal struct {
	T string `json:"t"`
	N int    `json:"n"`
}

type rsOp struct {
	Op   string `json:"op"`
	I    int    `json:"i"`
	Name string `json:"name"`
}

type rsCfg struct {
	Form   string    `json:"form"`
	Names  []string  `json:"names"`
	Proj   bool      `json:"proj"`
	Rows   [][]rsVal `json:"rows"`
	Schema []struct {
		F   string `json:"f"`
		Arg string `json:"arg"`
	} `json:"schema"`
	Off int `json:"off"`
	Lim int `json:"lim"`
}

var rsPool = []any{11, "text", 3.5, true, []byte("xy"), time.Unix(86400, 0).UTC(), int64(-1) << 62, "", 0, 0.0, "0", int32(7)}

type rsWorld struct {
	rng *rand.Rand
}

func (w *rsWorld) value(v rsVal) any {
	switch v.T {
	case "v":
		return rsPool[v.N-1]
	case "num":
		switch w.rng.Intn(3) {
		case 0:
			return v.N
		case 1:
			return float64(v.N)
		}
		return int64(v.N)
	case "low":
		return string(rune('a' + v.N - 1))
	case "up":
		return string(rune('A' + v.N - 1))
	}
	return nil
}

// back names a Go value of the column c.
func (w *rsWorld) back(c string, v any) obj {
	col := c[strings.Index(c, "(")+1:]
	switch strings.TrimSuffix(col, ")") {
	case "m", "n":
		switch x := v.(type) {
		case int:
			return obj{"t": "num", "n": x}
		case int64:
			return obj{"t": "num", "n": int(x)}
		case float64:
			if x == float64(int(x)) {
				return obj{"t": "num", "n": int(x)}
			}
		}
	case "s":
		if s, ok := v.(string); ok && len(s) == 1 {
			if s[0] >= 'a' {
				return obj{"t": "low", "n": int(s[0]-'a') + 1}
			}
			return obj{"t": "up", "n": int(s[0]-'A') + 1}
		}
	}
	if v == nil {
		return obj{"t": "nil", "n": 0}
	}
	for i, p := range rsPool {
		if reflect.DeepEqual(p, v) {
			return obj{"t": "v", "n": i + 1}
		}
	}
	return obj{"t": fmt.Sprintf("!%T %v", v, v), "n": 0}
}

// dest returns a destination of the type of v and a function to read it.
func dest(v any) (any, func() any) {
	if v == nil {
		s := "untouched"
		return &s, func() any {
			if s == "" {
				return nil
			}
			return s
		}
	}
	p := reflect.New(reflect.TypeOf(v))
	return p.Interface(), func() any { return p.Elem().Interface() }
}

func hugeUint(n int) uint {
	switch n {
	case -1:
		return ^uint(0)
	case -2:
		return ^uint(0) - 1
	case -3:
		return 1 << 63
	case -4:
		return 1 << 32
	case -5:
		return 1<<63 - 1
	}
	return uint(n)
}

func (w *rsWorld) build(c rsCfg) (resultset.ResultSet, resultset.Schema) {
	columns := func(names []string) []resultset.Column {
		cols := []resultset.Column{}
		for _, n := range names {
			cols = append(cols, resultset.NewColumn(resultset.WithColumnName(n), resultset.WithColumnType(query.TextType)))
		}
		return cols
	}
	rowSchema := resultset.NewSchema(resultset.WithSchemaColumns(columns(c.Names)))
	rows, maps := []resultset.Row{}, []map[string]any{}
	for _, r := range c.Rows {
		m, vals := map[string]any{}, []any{}
		for j, v := range r {
			g := w.value(v)
			if v.T != "none" {
				m[c.Names[j]] = g
			}
			vals = append(vals, g)
		}
		maps = append(maps, m)
		switch c.Form {
		case "obj":
			rows = append(rows, resultset.NewRow(resultset.WithRowObject(m)))
		case "vals":
			rows = append(rows, resultset.NewRow(resultset.WithRowSchema(rowSchema), resultset.WithRowValues(vals)))
		case "pos":
			rows = append(rows, resultset.NewRow(resultset.WithRowValues(vals)))
		}
	}
	opts := []resultset.ResultSetOption{}
	var schema resultset.Schema
	if c.Proj {
		cols := []resultset.Column{}
		sels := []string{}
		for _, s := range c.Schema {
			if s.F == "" {
				cols = append(cols, columns([]string{s.Arg})...)
				sels = append(sels, s.Arg)
				continue
			}
			sel := caseOf(s.F, w.rng.Intn(3)) + "(" + s.Arg + ")"
			sels = append(sels, sel)
			x := parseOne("SELECT " + sel + " FROM t").(query.Select).Selectors()[0]
			fx, _ := x.Function()
			cols = append(cols, resultset.NewColumn(resultset.WithColumnName(x.String()), resultset.WithColumnFunction(fx)))
		}
		if w.rng.Intn(2) == 0 {
			tbl := parseOne("CREATE TABLE t (s TEXT, zz INT, q INT, c TEXT, n INT, b TEXT, m DOUBLE, a TEXT)").(query.CreateTable).Schema()
			sel := parseOne("SELECT " + strings.Join(sels, ", ") + " FROM t").(query.Select).Selectors()
			sc, err := resultset.NewSchemaFrom(resultset.WithSchemaTableSchema(tbl), resultset.WithSchemaSelectors(sel))
			if err != nil {
				panic(err)
			}
			schema = sc
		} else {
			schema = resultset.NewSchema(resultset.WithSchemaColumns(cols))
		}
		opts = append(opts, resultset.WithResultSetSchema(schema))
	}
	switch {
	case c.Form == "obj" && w.rng.Intn(3) == 0:
		opts = append(opts, resultset.WithResultSetRowsOf(maps))
	case c.Form == "obj" && w.rng.Intn(2) == 0:
		rs, err := resultset.NewRowsFromMapRows(maps)
		if err != nil {
			panic(err)
		}
		opts = append(opts, resultset.WithResultSetRows(rs))
	case w.rng.Intn(2) == 0:
		opts = append(opts, resultset.WithResultSetRowsOf(rows))
	default:
		opts = append(opts, resultset.WithResultSetRows(rows))
	}
	if c.Off != 0 || w.rng.Intn(2) == 0 {
		opts = append(opts, resultset.WithResultSetOffset(hugeUint(c.Off)))
	}
	if c.Lim != 0 || w.rng.Intn(2) == 0 {
		opts = append(opts, resultset.WithResultSetLimit(hugeUint(c.Lim)))
	}
	if w.rng.Intn(2) == 0 {
		return resultset.NewResultSet(opts...), schema
	}
	rs, err := resultset.NewResultSetFrom(opts...)
	if err != nil {
		panic(err)
	}
	return rs, schema
}

func (w *rsWorld) access(names []string, row resultset.Row, o rsOp) ([]any, error) {
	nameOf := func(i int) string {
		if i < len(names) {
			return names[i]
		}
		return "?"
	}
	out := []any{}
	switch o.Op {
	case "row":
		for i, v := range row.Values() {
			out = append(out, w.back(nameOf(i), v))
		}
	case "object":
		m := row.Object()
		seen := map[string]bool{}
		for _, n := range names {
			v, ok := m[n]
			if !ok {
				return nil, fmt.Errorf("no %s", n)
			}
			seen[n] = true
			out = append(out, w.back(n, v))
		}
		if len(m) != len(seen) {
			return nil, fmt.Errorf("%d names", len(m))
		}
	case "at":
		v, err := row.ValueAt(o.I)
		if err != nil {
			return nil, err
		}
		out = append(out, w.back(nameOf(o.I), v))
	case "by":
		v, err := row.ValueBy(o.Name)
		if err != nil {
			return nil, err
		}
		out = append(out, w.back(o.Name, v))
	case "scan":
		ds, gs := []any{}, []func() any{}
		vals := row.Values()
		for i := range o.I {
			var v any
			if i < len(vals) {
				v = vals[i]
			}
			d, g := dest(v)
			ds, gs = append(ds, d), append(gs, g)
		}
		if err := row.Scan(ds...); err != nil {
			return nil, err
		}
		for i, g := range gs {
			out = append(out, w.back(nameOf(i), g()))
		}
	case "scanat":
		v, _ := row.ValueAt(o.I)
		d, g := dest(v)
		if err := row.ScanAt(o.I, d); err != nil {
			return nil, err
		}
		out = append(out, w.back(nameOf(o.I), g()))
	case "scanby":
		v, _ := row.ValueBy(o.Name)
		d, g := dest(v)
		if err := row.ScanBy(o.Name, d); err != nil {
			return nil, err
		}
		out = append(out, w.back(o.Name, g()))
	}
	return out, nil
}

func runResultSet(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int    `json:"id"`
		Cfg rsCfg  `json:"cfg"`
		Ops []rsOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	w := &rsWorld{rand.New(rand.NewSource(seed*104729 + int64(v.ID)))}
	res, cols := []any{}, []string{}
	pan := guarded(func() {
		rs, schema := w.build(v.Cfg)
		names := v.Cfg.Names
		if schema != nil {
			if rs.Schema() != schema {
				panic("another schema")
			}
			for _, c := range schema.Columns() {
				cols = append(cols, c.Name())
			}
			names = cols
		}
		for _, o := range v.Ops {
			r := obj{"ok": true, "b": false, "vals": []any{}}
			switch o.Op {
			case "next":
				r["b"] = rs.Next()
			case "lookup":
				ok := false
				if schema != nil {
					c, err := schema.LookupColumn(o.Name)
					ok = err == nil && c.Name() == o.Name
				}
				r["ok"] = ok
			default:
				row, err := rs.Row()
				if err == nil {
					var vals []any
					if vals, err = w.access(names, row, o); err == nil {
						r["vals"] = vals
					}
				}
				r["ok"] = err == nil
			}
			res = append(res, r)
		}
		if err := rs.Close(); err != nil {
			panic(err)
		}
	})
	emit(obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "res": res, "cols": cols, "panic": pan})
}
