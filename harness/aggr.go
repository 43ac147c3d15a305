package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"slices"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/fn"
)

func init() { register("aggr", runAggr) }

type aggrVal struct {
	T string `json:"t"`
	N int    `json:"n"`
}

type aggrOp struct {
	Op    string    `json:"op"`
	Form  string    `json:"form"`
	Key   []int     `json:"key"`
	Vals  []aggrVal `json:"vals"`
	Extra int       `json:"extra"`
	Gs    []string  `json:"gs"`
}

type aggrCfg struct {
	Fn   string   `json:"fn"`
	Args []string `json:"args"`
	Gs   []string `json:"gs"`
}

// aggrWorld renders the abstract numbers and keys of one history.
type aggrWorld struct {
	rng   *rand.Rand
	scale float64
	kinds map[string]int // key type per grouping column
}

func newAggrWorld(seed int64) *aggrWorld {
	r := rand.New(rand.NewSource(seed))
	scales := []float64{1, 1, 1, 0.5, 0.25, 1024, 1 << 40, 1.0 / (1 << 20)}
	return &aggrWorld{rng: r, scale: scales[r.Intn(len(scales))], kinds: map[string]int{}}
}

// num renders n*scale as one of the Go types which can hold it.
func (w *aggrWorld) num(n int) any {
	f := float64(n) * w.scale
	forms := []any{f, strconv.FormatFloat(f, 'f', -1, 64), strconv.FormatFloat(f, 'e', -1, 64), []byte(strconv.FormatFloat(f, 'g', -1, 64)), float32(f), &f}
	if f == math.Trunc(f) {
		i := int64(f)
		forms = append(forms, i, int(i), &i, strconv.FormatInt(i, 10), strconv.FormatInt(i, 10))
		if -128 <= i && i <= 127 {
			forms = append(forms, int8(i))
		}
		if -1<<15 <= i && i < 1<<15 {
			forms = append(forms, int16(i))
		}
		if -1<<31 <= i && i < 1<<31 {
			forms = append(forms, int32(i))
		}
		if i >= 0 {
			forms = append(forms, uint(i), uint64(i))
			if i < 256 {
				forms = append(forms, uint8(i), uint16(i), uint32(i))
			}
		}
	}
	return forms[w.rng.Intn(len(forms))]
}

func (w *aggrWorld) value(v aggrVal) any {
	switch v.T {
	case "null":
		return nil
	case "num":
		return w.num(v.N)
	}
	return []any{"abc", "", "1,5", "12x", "NULL", true, []int{1}, struct{}{}, "0x", " 1", []byte("z")}[w.rng.Intn(11)]
}

var keyStrings = []string{"", " ", "\"", "\",\"", ",", ",,", "NULL", "a", "a,", "a,b", "a\"b", "b", "b,", "null", "é", "日本"}

// key renders a rank as a Go value; all keys of a column have one type.
func (w *aggrWorld) key(col string, rank int) any {
	if rank == 0 {
		return nil
	}
	k, ok := w.kinds[col]
	if !ok {
		k = w.rng.Intn(9)
		w.kinds[col] = k
	}
	switch k {
	case 0:
		return rank - 2
	case 1:
		return int64(rank) * 1000000007
	case 2:
		return float64(rank) / 4
	case 3:
		return keyStrings[rank-1]
	case 4:
		return keyStrings[rank]
	case 5:
		return keyStrings[rank+4]
	case 6:
		return uint8(rank)
	case 7:
		return keyStrings[rank+6]
	}
	return fmt.Sprintf("k%03d", rank)
}

func init() { slices.Sort(keyStrings) }

func (w *aggrWorld) rank(col string, v any) int {
	if v == nil {
		return 0
	}
	for r := 1; r < 10; r++ {
		if w.key(col, r) == v {
			return r
		}
	}
	return -1
}

// frac reports a result as the fraction with the smallest denominator.
func (w *aggrWorld) frac(v any, col string) obj {
	if v == nil {
		return obj{"t": "null", "p": 0, "q": 1}
	}
	f, ok := v.(float64)
	if !ok {
		return obj{"t": fmt.Sprintf("!%T", v), "p": 0, "q": 1}
	}
	if !strings.HasPrefix(col, "COUNT(") {
		f /= w.scale
	}
	for q := 1; q <= 200; q++ {
		p := math.Round(f * float64(q))
		if math.Abs(f*float64(q)-p) <= 1e-9*math.Max(1, math.Abs(p)) && math.Abs(p) < 1<<24 {
			return obj{"t": "num", "p": int(p), "q": q}
		}
	}
	return obj{"t": "!" + strconv.FormatFloat(f, 'g', -1, 64), "p": 0, "q": 1}
}

func (w *aggrWorld) result(gs []string, cols []string, rows []fn.Row) obj {
	out := []any{}
	for _, r := range rows {
		key, vals := []int{}, []any{}
		for i, v := range r {
			if i < len(gs) {
				key = append(key, w.rank(gs[i], v))
			} else {
				vals = append(vals, w.frac(v, at(cols, i)))
			}
		}
		out = append(out, obj{"key": key, "vals": vals})
	}
	if cols == nil {
		cols = []string{}
	}
	return obj{"cols": cols, "rows": out}
}

func at(s []string, i int) string {
	if i < len(s) {
		return s[i]
	}
	return ""
}

var noResult = obj{"cols": []string{}, "rows": []any{}}

func newAggregator(w *aggrWorld, c aggrCfg) (fn.Aggregator, error) {
	name := c.Fn
	switch w.rng.Intn(4) {
	case 0:
		name = strings.ToLower(name)
	case 1:
		name = caseOf(name, 2)
	case 2:
		name += "(" + strings.Join(c.Args, ",") + ")"
	}
	if w.rng.Intn(2) == 0 {
		opts := []fn.AggregatorOption{fn.WithAggregatorArguments(c.Args)}
		if len(c.Gs) > 0 {
			opts = append(opts, fn.WithAggregatorGroupBys(c.Gs...))
		}
		return fn.NewAggregatorForName(name, opts...)
	}
	switch c.Fn {
	case "SUM":
		return fn.NewSum(fn.WithSumArguments(c.Args), fn.WithSumGroupBys(c.Gs...))
	case "AVG":
		return fn.NewAvg(fn.WithAvgArguments(c.Args), fn.WithAvgGroupBys(c.Gs...))
	case "MIN":
		return fn.NewMin(fn.WithMinArguments(c.Args), fn.WithMinGroupBys(c.Gs...))
	case "MAX":
		return fn.NewMax(fn.WithMaxArguments(c.Args), fn.WithMaxGroupBys(c.Gs...))
	}
	return fn.NewCount(fn.WithCountArguments(c.Args), fn.WithCountGroupBys(c.Gs...))
}

// input renders a row operation.
func (w *aggrWorld) input(args, gs []string, o aggrOp) any {
	if o.Form == "map" || o.Form == "gomap" {
		m := map[string]any{}
		last := ""
		for i, g := range gs {
			m[g] = w.key(g, o.Key[i])
			last = g
		}
		for i, a := range args {
			if a != "*" {
				m[a] = w.value(o.Vals[i])
				last = a
			}
		}
		if o.Extra < 0 {
			delete(m, last)
		}
		if o.Extra > 0 {
			m["unrelated"] = []any{nil, 7, "x"}[w.rng.Intn(3)]
		}
		if o.Form == "map" {
			return fn.NewMapWithMap(m)
		}
		return m
	}
	row := []any{}
	for i, g := range gs {
		row = append(row, w.key(g, o.Key[i]))
	}
	for i := range args {
		row = append(row, w.value(o.Vals[i]))
	}
	if o.Extra < 0 {
		row = row[:len(row)-1]
	}
	if o.Extra > 0 {
		row = append(row, []any{nil, 7, "x"}[w.rng.Intn(3)])
	}
	if o.Form == "row" {
		return fn.NewRow(row...)
	}
	return row
}

// scrub overwrites a row buffer the caller reuses after the call.
func scrub(in any) {
	switch x := in.(type) {
	case []any:
		for i := range x {
			x[i] = "scrubbed"
		}
	case fn.Row:
		for i := range x {
			x[i] = "scrubbed"
		}
	case map[string]any:
		clear(x)
	case fn.Map:
		clear(x)
	}
}

func readRows(rs fn.ResultSet) (rows []fn.Row, err error) {
	if _, err := rs.Row(); err == nil {
		return nil, fmt.Errorf("a row before the first Next")
	}
	for rs.Next() {
		r, err := rs.Row()
		if err != nil {
			return nil, err
		}
		m, err := rs.Map()
		if err != nil {
			return nil, err
		}
		for i, c := range rs.Columns() {
			if i >= len(r) || fmt.Sprint(m[c]) != fmt.Sprint(r[i]) {
				return nil, fmt.Errorf("row and map differ")
			}
		}
		rows = append(rows, r)
	}
	if rs.Next() {
		return nil, fmt.Errorf("a row after the last one")
	}
	return rows, nil
}

type finalRec struct {
	res  obj
	gs   []string
	rs   fn.ResultSet
	rows []fn.Row
}

func runAggr(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int      `json:"id"`
		Cfg aggrCfg  `json:"cfg"`
		Ops []aggrOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	w := newAggrWorld(seed*7919 + int64(v.ID))
	res := []any{}
	self := obj{"name": "", "args": []string{}, "gs": []string{}}
	pan := guarded(func() {
		aggr, err := newAggregator(w, v.Cfg)
		if err != nil {
			panic(err)
		}
		gs, has := aggr.GroupBys()
		if has != (len(gs) > 0) || aggr.Type() != fn.AggregateFunction {
			gs = append(gs, "!inconsistent")
		}
		self = obj{"name": aggr.Name(), "args": aggr.Arguments(), "gs": append([]string{}, gs...)}
		cur := v.Cfg.Gs
		finals := []*finalRec{}
		for _, o := range v.Ops {
			var err error
			r := obj{"f": noResult, "later": noResult}
			switch o.Op {
			case "row":
				in := w.input(v.Cfg.Args, cur, o)
				err = aggr.Aggregate(in)
				scrub(in)
			case "reset":
				err = aggr.Reset()
			case "regroup":
				if len(o.Gs) == 1 && w.rng.Intn(2) == 0 {
					err = aggr.Reset(o.Gs[0])
				} else {
					err = aggr.Reset(append([]string{}, o.Gs...))
				}
				if err == nil {
					cur = o.Gs
				}
			case "final":
				var rs fn.ResultSet
				switch o.Form {
				case "asc":
					rs, err = aggr.Finalize(fn.OrderByAsc)
				case "desc":
					rs, err = aggr.Finalize(fn.OrderByDesc)
				default:
					if w.rng.Intn(2) == 0 {
						rs, err = aggr.Finalize(fn.OrderByNone)
					} else {
						rs, err = aggr.Finalize()
					}
				}
				if err == nil {
					var rows []fn.Row
					rows, err = readRows(rs)
					f := &finalRec{res: r, gs: cur, rs: rs, rows: rows}
					finals = append(finals, f)
					r["f"] = w.result(cur, append([]string{}, rs.Columns()...), rows)
				}
			}
			r["ok"] = err == nil
			res = append(res, r)
		}
		for _, f := range finals {
			f.res["later"] = w.result(f.gs, f.rs.Columns(), f.rows)
		}
	})
	emit(obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "res": res, "self": self, "panic": pan})
}
