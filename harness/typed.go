package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("typed", runTyped) }

type tyNum struct {
	Neg bool  `json:"neg"`
	Ip  []int `json:"ip"`
	Fp  []int `json:"fp"`
}

type tyLit struct {
	K    int    `json:"k"`
	Kind string `json:"kind"`
	Num  tyNum  `json:"num"`
	W    string `json:"w"`
}

type tyCfg struct {
	Cols    []scName `json:"cols"`
	Lits    []tyLit  `json:"lits"`
	How     string   `json:"how"`
	Schemas [][]struct {
		N  scName `json:"n"`
		Ty string `json:"ty"`
	} `json:"schemas"`
}

type tyOp struct {
	Op string `json:"op"`
	S  int    `json:"s"`
	I  int    `json:"i"`
	K  int    `json:"k"`
}

func digits(d []int) string {
	var b strings.Builder
	for _, x := range d {
		b.WriteByte(byte('0' + x))
	}
	return b.String()
}

type tyWorld struct {
	rng   *rand.Rand
	lits  []tyLit
	texts []string // the value text of a literal
	raw   []string // the SQL text of a literal
}

func (w *tyWorld) literal(l tyLit) (text, raw string) {
	switch l.Kind {
	case "num":
		ip, fp := digits(l.Num.Ip), digits(l.Num.Fp)
		if ip == "" || w.rng.Intn(8) == 0 {
			ip = "0" + ip
		}
		sign := ""
		if l.Num.Neg {
			sign = "-"
		} else if w.rng.Intn(10) == 0 {
			sign = "+"
		}
		switch {
		case fp != "":
			if w.rng.Intn(4) == 0 {
				fp += "00"
			}
			text = sign + ip + "." + fp
		default:
			text = sign + ip
		}
		if w.rng.Intn(4) == 0 {
			return text, "'" + text + "'"
		}
		return text, text
	case "bool":
		text = caseOf(l.W, w.rng.Intn(3))
		return text, text
	}
	text = []string{"abc", "it's", "-", "12x", "x12", "1.2.3", "日本", "--", "1 2", "$5", "tru", "1,5", "e5", "", " "}[w.rng.Intn(15)]
	return text, "'" + strings.ReplaceAll(text, "'", "''") + "'"
}

func splitNum(s string) tyNum {
	n := tyNum{Ip: []int{}, Fp: []int{}}
	if strings.HasPrefix(s, "-") {
		n.Neg, s = true, s[1:]
	}
	ip, fp, _ := strings.Cut(s, ".")
	for _, c := range strings.TrimLeft(ip, "0") {
		n.Ip = append(n.Ip, int(c-'0'))
	}
	for _, c := range strings.TrimRight(fp, "0") {
		n.Fp = append(n.Fp, int(c-'0'))
	}
	return n
}

func (w *tyWorld) value(v any, ks []int) obj {
	r := obj{"t": fmt.Sprintf("%T", v), "ks": []int{}, "num": tyNum{Ip: []int{}, Fp: []int{}}, "b": false, "near": false}
	near := func(f float64, eps float64) bool {
		for _, k := range ks {
			want, ok := new(big.Rat).SetString(w.texts[k])
			got := new(big.Rat).SetFloat64(f)
			if !ok || got == nil {
				continue
			}
			d := new(big.Rat).Sub(got, want)
			lim := new(big.Rat).Mul(new(big.Rat).Abs(want), new(big.Rat).SetFloat64(eps))
			if d.Abs(d).Cmp(lim) <= 0 {
				return true
			}
		}
		return false
	}
	switch x := v.(type) {
	case string:
		r["t"] = "lit"
		l := []int{}
		for k, t := range w.texts {
			if t == x {
				l = append(l, k+1)
			}
		}
		r["ks"] = l
	case int8, int16, int32, int64, int:
		r["num"] = splitNum(fmt.Sprint(x))
	case float32:
		r["num"] = splitNum(strconv.FormatFloat(float64(x), 'f', -1, 32))
		r["near"] = near(float64(x), 1.2e-7)
	case float64:
		r["num"] = splitNum(strconv.FormatFloat(x, 'f', -1, 64))
		r["near"] = near(x, 2.3e-16)
	case bool:
		r["b"] = x
	}
	return r
}

func runTyped(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int    `json:"id"`
		Cfg tyCfg  `json:"cfg"`
		Ops []tyOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	w := &tyWorld{rng: rand.New(rand.NewSource(seed*65537 + int64(v.ID))), lits: v.Cfg.Lits}
	for _, l := range v.Cfg.Lits {
		t, r := w.literal(l)
		w.texts, w.raw = append(w.texts, t), append(w.raw, r)
	}
	names, sets := []string{}, []string{}
	for j, n := range v.Cfg.Cols {
		names = append(names, n.text())
		sets = append(sets, n.text()+" = "+w.raw[j])
	}
	text := ""
	switch v.Cfg.How {
	case "insert":
		text = "INSERT INTO t (" + strings.Join(names, ", ") + ") VALUES (" + strings.Join(w.raw[:len(names)], ", ") + ")"
	case "named":
		text = "INSERT INTO t (" + strings.Join(names, ", ") + ") VALUES (" + strings.Join(w.raw[:len(names)], ", ") + "), (" + strings.Join(w.raw[:len(names)], ", ") + ")"
	default:
		text = "UPDATE t SET " + strings.Join(sets, ", ")
	}
	res := []any{}
	texts := []string{text}
	pan := guarded(func() {
		schemas := []query.Schema{}
		for _, s := range v.Cfg.Schemas {
			defs, cols := []string{}, query.NewColumns()
			for _, c := range s {
				defs = append(defs, c.N.text()+" "+c.Ty)
				cols = append(cols, query.NewColumnWithOptions(query.WithColumnName(c.N.text()), query.WithColumnData(scDef(c.Ty))))
			}
			if w.rng.Intn(3) == 0 {
				t := "CREATE TABLE t (" + strings.Join(defs, ", ") + ")"
				texts = append(texts, t)
				schemas = append(schemas, parseOne(t).(query.CreateTable).Schema())
			} else {
				schemas = append(schemas, query.NewSchemaWith("t", query.WithSchemaColumns(cols)))
				texts = append(texts, "schema ("+strings.Join(defs, ", ")+")")
			}
		}
		lists := []query.Columns{}
		switch st := parseOne(text).(type) {
		case query.Insert:
			vals := st.Values()
			lists = append(lists, vals[len(vals)-1])
		case query.Update:
			lists = append(lists, st.Columns())
		}
		origin := [][]int{{}} // the literal of every column
		for j := range v.Cfg.Cols {
			origin[0] = append(origin[0], j)
		}
		for _, o := range v.Ops {
			var err error
			l := lists[o.S-1]
			switch o.Op {
			case "copy":
				lists = append(lists, l.Copy())
				origin = append(origin, append([]int{}, origin[o.S-1]...))
			case "schema":
				err = l.SetSchema(schemas[o.I-1])
			case "value":
				err = l[o.I-1].SetValue(w.texts[o.K-1])
				origin[o.S-1][o.I-1] = o.K - 1
			}
			all := []any{}
			for s, l := range lists {
				cols := []any{}
				for j, c := range l {
					ty := ""
					if c.Definition() != nil {
						ty = c.DataType().String()
						if c.DataTypeSize() > 0 {
							ty += fmt.Sprintf("(%d)", c.DataTypeSize())
						}
					}
					cols = append(cols, obj{"n": scBack(c.Name()), "ty": ty, "v": w.value(c.Value(), []int{origin[s][j]})})
				}
				all = append(all, cols)
			}
			res = append(res, obj{"ok": err == nil, "all": all})
		}
	})
	emit(obj{"id": v.ID, "cfg": v.Cfg, "ops": v.Ops, "res": res, "panic": pan, "_text": strings.Join(texts, "; ")})
}
