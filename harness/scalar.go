package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/fn"
)

func init() { register("scalar", runScalar) }

type scalarVal struct {
	T string   `json:"t"`
	P int      `json:"p"`
	Q int      `json:"q"`
	S []string `json:"s"`
}

type rpn struct {
	F string `json:"f"`
	P int    `json:"p"`
	Q int    `json:"q"`
}

type scalarOp struct {
	How  string      `json:"how"`
	Args []scalarVal `json:"args"`
	ID   string      `json:"id"`
	Lhs  []rpn       `json:"lhs"`
	Rhs  []rpn       `json:"rhs"`
}

var charText = map[string]string{"TAB": "\t", "NL": "\n", "CR": "\r"}

func charsToText(s []string) string {
	var b strings.Builder
	for _, c := range s {
		if t, ok := charText[c]; ok {
			c = t
		}
		b.WriteString(c)
	}
	return b.String()
}

func textToChars(v string) []string {
	out := []string{}
	for _, c := range v {
		t := string(c)
		for n, x := range charText {
			if x == t {
				t = n
			}
		}
		out = append(out, t)
	}
	return out
}

// goNum renders p/q as one of the Go types a caller may pass.
func goNum(rng *rand.Rand, p, q int) any {
	f := float64(p) / float64(q)
	forms := []any{f, f, strconv.FormatFloat(f, 'g', -1, 64), []byte(strconv.FormatFloat(f, 'g', -1, 64))}
	if float64(float32(f)) == f {
		forms = append(forms, float32(f))
	}
	if f == math.Trunc(f) {
		i := int(f)
		forms = append(forms, i, int64(i), int32(i), strconv.Itoa(i))
		if -128 <= i && i <= 127 {
			forms = append(forms, int8(i), int16(i))
		}
		if i >= 0 {
			forms = append(forms, uint(i), uint32(i), uint64(i))
		}
	}
	return forms[rng.Intn(len(forms))]
}

func (v scalarVal) goValue(rng *rand.Rand) any {
	switch v.T {
	case "num":
		return goNum(rng, v.P, v.Q)
	case "str":
		t := charsToText(v.S)
		if rng.Intn(5) == 0 {
			return []byte(t)
		}
		return t
	case "null":
		return nil
	}
	return []any{"abc", "", "1 2", "--1", true, []int{1}, struct{}{}}[rng.Intn(7)]
}

// number reports a float as the fraction with the smallest denominator.
func number(f float64) obj {
	for q := 1; q <= 10000; q++ {
		p := math.Round(f * float64(q))
		if math.Abs(p) < 1<<20 && math.Abs(f*float64(q)-p) <= 1e-11*math.Max(1, math.Abs(p)) {
			return obj{"t": "num", "p": int(p), "q": q, "s": []string{}}
		}
	}
	return obj{"t": "real", "p": 0, "q": 1, "s": []string{}}
}

func toFloat(v any) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, !math.IsNaN(x) && !math.IsInf(x, 0)
	case int:
		return float64(x), true
	}
	return 0, false
}

func scalarResult(v any, err error, before, after time.Time) obj {
	none := obj{"t": "null", "p": 0, "q": 1, "s": []string{}}
	if err != nil {
		return obj{"ok": false, "v": none, "milli": 0}
	}
	switch x := v.(type) {
	case string:
		return obj{"ok": true, "v": obj{"t": "str", "p": 0, "q": 1, "s": textToChars(x)}, "milli": 0}
	case time.Time:
		t := "now"
		if x.Before(before) || x.After(after) {
			t = "other time"
		}
		return obj{"ok": true, "v": obj{"t": t, "p": 0, "q": 1, "s": []string{}}, "milli": 0}
	}
	f, ok := toFloat(v)
	if !ok {
		return obj{"ok": true, "v": obj{"t": fmt.Sprintf("!%T %v", v, v), "p": 0, "q": 1, "s": []string{}}, "milli": -1}
	}
	milli := -1
	if math.Abs(f) < 1e6 {
		milli = int(math.Floor(f * 1000))
	}
	return obj{"ok": true, "v": number(f), "milli": milli}
}

// evalRPN evaluates a postfix expression with the real functions.
func evalRPN(rng *rand.Rand, e []rpn, x, y any) (any, error) {
	st := []any{}
	for _, t := range e {
		switch t.F {
		case "":
			st = append(st, goNum(rng, t.P, t.Q))
		case "x":
			st = append(st, x)
		case "y":
			st = append(st, y)
		default:
			n := 1
			switch t.F {
			case "+", "-", "*", "/", "POWER", "MOD":
				n = 2
			case "PI":
				n = 0
			}
			v, err := fn.ExecuteFunction(t.F, append([]any{}, st[len(st)-n:]...))
			if err != nil {
				return nil, err
			}
			st = append(st[:len(st)-n], v)
		}
	}
	return st[0], nil
}

func numOf(v any) (float64, bool) {
	if f, ok := toFloat(v); ok {
		return f, true
	}
	switch x := v.(type) {
	case []byte:
		f, err := strconv.ParseFloat(string(x), 64)
		return f, err == nil
	default:
		f, err := strconv.ParseFloat(fmt.Sprint(x), 64)
		return f, err == nil
	}
}

var fnTypeNames = map[fn.FunctionType]string{fn.MathFunction: "math", fn.StringFunction: "string", fn.TimeFunction: "time", fn.ArithOperator: "arith"}

func runScalar(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int `json:"id"`
		Cfg struct {
			Name string `json:"name"`
			CM   int    `json:"cm"`
			N    int    `json:"n"`
		} `json:"cfg"`
		Ops []scalarOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	rng := rand.New(rand.NewSource(seed*31 + int64(v.ID)))
	res := []any{}
	out := obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "found": false, "aggr": false, "reg": false, "canon": "", "typ": ""}
	pan := guarded(func() {
		name := caseOf(v.Cfg.Name, v.Cfg.CM)
		argNames := []string{}
		for i := 0; i < v.Cfg.N; i++ {
			argNames = append(argNames, fmt.Sprintf("arg%d", i+1))
		}
		var ex fn.Executor
		var err error
		if rng.Intn(2) == 0 && !strings.Contains(name, "(") {
			args := []fn.Argument{}
			for _, a := range argNames {
				args = append(args, fn.NewArgumentWith(a))
			}
			f := fn.NewFunction(fn.WithFunctionName(name), fn.WithFunctionArguments(args...))
			ex, err = f.Executor()
		} else {
			ex, err = fn.NewExecutorForName(name, fn.WithExecutorArguments(argNames))
		}
		_, aerr := fn.NewAggregatorForName(name, fn.WithAggregatorArguments([]string{"a"}))
		out["found"], out["aggr"], out["reg"] = err == nil, aerr == nil, fn.IsRegisteredFunction(name)
		if err == nil {
			out["canon"], out["typ"] = ex.Name(), fnTypeNames[ex.Type()]
		}
		for _, o := range v.Ops {
			vals := []any{}
			for _, a := range o.Args {
				vals = append(vals, a.goValue(rng))
			}
			if o.How == "identity" {
				l, e1 := evalRPN(rng, o.Lhs, vals[0], vals[1])
				r, e2 := evalRPN(rng, o.Rhs, vals[0], vals[1])
				t := "different"
				if e1 == nil && e2 == nil {
					a, ok1 := numOf(l)
					b, ok2 := numOf(r)
					if ok1 && ok2 && math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b))) {
						t = "equal"
					}
				}
				res = append(res, obj{"ok": e1 == nil && e2 == nil, "v": obj{"t": t, "p": 0, "q": 1, "s": []string{}}, "milli": 0,
					"_l": fmt.Sprint(l), "_r": fmt.Sprint(r)})
				continue
			}
			if ex == nil {
				break
			}
			var in any
			switch o.How {
			case "row":
				in = fn.NewRow(vals...)
			case "arr", "func":
				in = vals
			case "one":
				in = vals[0]
				if in == nil || isList(in) {
					in = vals
				}
			case "nil":
				in = nil
			case "map":
				m := map[string]any{"unrelated": "x"}
				for i, a := range argNames {
					m[a] = vals[i]
				}
				in = m
				if rng.Intn(2) == 0 {
					in = fn.NewMapWithMap(m)
				}
			}
			before := time.Now()
			var r any
			var err error
			if o.How == "func" {
				r, err = fn.ExecuteFunction(name, in)
			} else {
				r, err = ex.Execute(in)
			}
			res = append(res, scalarResult(r, err, before, time.Now()))
		}
	})
	out["res"], out["panic"] = res, pan
	emit(out)
}

func isList(v any) bool { _, ok := v.([]any); return ok }
