package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
)

func init() { register("aggrset", runAggrSet) }

type setOp struct {
	aggrOp
	Rows []setOp `json:"rows"`
	Off  uint    `json:"off"`
	Lim  uint    `json:"lim"`
	Sels []struct {
		T string `json:"t"`
		I int    `json:"i"`
	} `json:"sels"`
}

type setCfg struct {
	Kind string `json:"kind"`
	Aggs []struct {
		Fn   string   `json:"fn"`
		Args []string `json:"args"`
	} `json:"aggs"`
	Gs []string `json:"gs"`
}

var setCols = []string{"x", "y", "z"}

func (w *aggrWorld) setMap(gs []string, o setOp) map[string]any {
	m := map[string]any{}
	for i, g := range gs {
		m[g] = w.key(g, o.Key[i])
	}
	for i, c := range setCols {
		m[c] = w.value(o.Vals[i])
	}
	return m
}

// setInput renders a row for all aggregators of a set.
func (w *aggrWorld) setInput(c setCfg, gs []string, o setOp) any {
	if o.Form == "map" || o.Form == "gomap" {
		m := w.setMap(gs, o)
		if o.Extra < 0 {
			if len(gs) > 0 {
				delete(m, gs[w.rng.Intn(len(gs))])
			} else {
				delete(m, c.Aggs[0].Args[0])
			}
		}
		if o.Extra > 0 {
			m["unrelated"] = []any{nil, 7, "x"}[w.rng.Intn(3)]
		}
		if o.Form == "map" {
			return fn.NewMapWithMap(m)
		}
		return m
	}
	row := []any{}
	for i, g := range gs {
		row = append(row, w.key(g, o.Key[i]))
	}
	row = append(row, w.value(o.Vals[0]))
	if o.Extra < 0 {
		row = row[:len(row)-1]
	}
	if o.Extra > 0 {
		row = append(row, 7)
	}
	if o.Form == "row" {
		return fn.NewRow(row...)
	}
	return row
}

func (w *aggrWorld) newSet(c setCfg) (fn.AggregatorSet, error) {
	if c.Kind == "names" {
		names := []string{}
		for _, a := range c.Aggs {
			names = append(names, caseOf(a.Fn, w.rng.Intn(3)))
		}
		opts := []fn.AggregatorOption{fn.WithAggregatorArguments(c.Aggs[0].Args)}
		if len(c.Gs) > 0 {
			opts = append(opts, fn.WithAggregatorGroupBys(c.Gs...))
		}
		return fn.NewAggregatorSetForNames(names, opts...)
	}
	list := []fn.Aggregator{}
	for _, a := range c.Aggs {
		x, err := newAggregator(w, aggrCfg{Fn: a.Fn, Args: a.Args, Gs: c.Gs})
		if err != nil {
			return nil, err
		}
		list = append(list, x)
	}
	s := fn.NewAggregatorSetWith(list)
	clear(list)
	return s, nil
}

func parseOne(text string) query.Statement {
	stmts, err := sql.NewParser().ParseString(text)
	if err != nil || len(stmts) != 1 {
		panic(fmt.Sprintf("%s: %d statements, %v", text, len(stmts), err))
	}
	return stmts[0]
}

// selectRows aggregates the rows as the result set of a parsed SELECT.
func (w *aggrWorld) selectRows(c setCfg, o setOp, r obj) error {
	tbl := parseOne("CREATE TABLE t (g TEXT, x DOUBLE, y DOUBLE, h TEXT, z DOUBLE)").(query.CreateTable).Schema()
	sels := []string{}
	for _, s := range o.Sels {
		if s.T == "key" {
			sels = append(sels, c.Gs[0])
		} else {
			a := c.Aggs[s.I-1]
			sels = append(sels, caseOf(a.Fn, w.rng.Intn(3))+"("+strings.Join(a.Args, ",")+")")
		}
	}
	text := "SELECT " + strings.Join(sels, ", ") + " FROM t"
	if len(c.Gs) > 0 {
		text += " GROUP BY " + c.Gs[0]
	}
	r["_text"] = text
	stmt := parseOne(text).(query.Select)
	maps := []map[string]any{}
	for _, row := range o.Rows {
		maps = append(maps, w.setMap(c.Gs, row))
	}
	rows := []resultset.Row{}
	for _, m := range maps {
		rows = append(rows, resultset.NewRow(resultset.WithRowObject(m)))
	}
	srcOpts := []resultset.ResultSetOption{
		resultset.WithResultSetSchema(resultset.NewSchema(
			resultset.WithSchemaTableName("t"),
			resultset.WithSchemaColumns(resultset.NewColumnsFrom(tbl.Columns())))),
		resultset.WithResultSetOffset(o.Off), resultset.WithResultSetLimit(o.Lim)}
	if w.rng.Intn(2) == 0 {
		srcOpts = append(srcOpts, resultset.WithResultSetRows(rows))
	} else {
		srcOpts = append(srcOpts, resultset.WithResultSetRowsOf(maps))
	}
	src, err := resultset.NewResultSetFrom(srcOpts...)
	if err != nil {
		return err
	}
	opts := []resultset.AggregatedResultSetOptions{
		resultset.WithAggregatedResultSetTableSchema(tbl),
		resultset.WithAggregatedResultSetSelectors(stmt.Selectors()),
		resultset.WithAggregatedResultSetSource(src)}
	if len(c.Gs) > 0 {
		opts = append(opts, resultset.WithAggregatedResultSetGroupBy(stmt.GroupBy()))
	}
	rs, err := resultset.NewAggregatedResultSetFrom(opts...)
	if err != nil {
		return err
	}
	cols := []string{}
	for _, c := range rs.Schema().Columns() {
		cols = append(cols, c.Name())
	}
	out := []any{}
	for rs.Next() {
		row, err := rs.Row()
		if err != nil {
			return err
		}
		vals := []any{}
		for i, v := range row.Values() {
			if v2, err := row.ValueBy(cols[i]); err != nil || fmt.Sprint(v2) != fmt.Sprint(v) {
				return fmt.Errorf("ValueBy differs")
			}
			if slices.Contains(c.Gs, cols[i]) {
				vals = append(vals, obj{"t": "key", "p": w.rank(cols[i], v), "q": 1})
			} else {
				vals = append(vals, w.frac(v, cols[i]))
			}
		}
		out = append(out, obj{"key": []int{}, "vals": vals})
	}
	r["f"] = obj{"cols": cols, "rows": out}
	r["later"] = r["f"]
	return nil
}

func runAggrSet(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int     `json:"id"`
		Cfg setCfg  `json:"cfg"`
		Ops []setOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	w := newAggrWorld(seed*7919 + int64(v.ID))
	res := []any{}
	text := ""
	pan := guarded(func() {
		set, err := w.newSet(v.Cfg)
		if err != nil {
			panic(err)
		}
		cur := v.Cfg.Gs
		finals := []*finalRec{}
		for _, o := range v.Ops {
			var err error
			r := obj{"f": noResult, "later": noResult}
			switch o.Op {
			case "row":
				in := w.setInput(v.Cfg, cur, o)
				err = set.Aggregate(in)
				scrub(in)
			case "reset":
				err = set.Reset()
			case "regroup":
				err = set.Reset(append([]string{}, o.Gs...))
				if err == nil {
					cur = o.Gs
				}
			case "final":
				var rs fn.ResultSet
				if rs, err = set.Finalize(); err == nil {
					var rows []fn.Row
					rows, err = readRows(rs)
					finals = append(finals, &finalRec{res: r, gs: cur, rs: rs, rows: rows})
					r["f"] = w.result(cur, append([]string{}, rs.Columns()...), rows)
				}
			case "select":
				err = w.selectRows(v.Cfg, o, r)
				text, _ = r["_text"].(string)
				delete(r, "_text")
			}
			r["ok"] = err == nil
			res = append(res, r)
		}
		for _, f := range finals {
			f.res["later"] = w.result(f.gs, f.rs.Columns(), f.rows)
		}
	})
	emit(obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "res": res, "panic": pan, "_text": text})
}
