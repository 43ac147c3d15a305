package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
)

func init() { register("bind", runBind) }

// bindVec is a template and the parameters to bind.
type bindVec struct {
	sqlVec
	Params []struct {
		G   string `json:"g"`
		Sym string `json:"sym"`
	} `json:"params"`
}

// param makes the Go value of a parameter and tells the symbol table how its literal may be written.
func (s *symtab) param(g, sym string) any {
	limit := sym[0] == 'u'
	n := func(bits uint, signed bool) int64 {
		v := s.rng.Int63() >> uint(s.rng.Intn(63))
		v &= int64(uint64(1)<<bits - 1)
		if limit {
			return v%1000 + 1
		}
		if signed && s.rng.Intn(2) == 0 {
			v = -v - 1
		}
		return v
	}
	take := func(v any) any {
		if s.takeNum(sym, fmt.Sprint(v)) {
			return v
		}
		return nil
	}
	for {
		var v any
		switch g {
		case "nil":
			return nil
		case "true", "false":
			return g == "true"
		case "string":
			return s.str(sym)
		case "bytes":
			b := make([]byte, s.rng.Intn(8))
			s.rng.Read(b)
			if len(b) > 0 && s.rng.Intn(3) == 0 {
				b = []byte("' ; ? $1 \" \\ \x00")[:1+s.rng.Intn(10)]
			}
			t := fmt.Sprintf("X'%X'", b)
			if _, used := s.blobs[t]; used {
				continue
			}
			s.fix(sym, t)
			s.also = append(s.also, func(txt string) string {
				if strings.EqualFold(txt, t) {
					return sym
				}
				return ""
			})
			return b
		case "time":
			t := time.Date(1+s.rng.Intn(9998), time.Month(1+s.rng.Intn(12)), 1+s.rng.Intn(28), s.rng.Intn(24), s.rng.Intn(60), s.rng.Intn(60),
				[]int{0, s.rng.Intn(1000000) * 1000, 1000, 999999000, 500000000}[s.rng.Intn(5)], []*time.Location{time.UTC, time.FixedZone("x", 3600*s.rng.Intn(12))}[s.rng.Intn(2)])
			txt := t.Format("2006-01-02 15:04:05.000000")
			if _, used := s.strs[txt]; used {
				continue
			}
			s.fix(sym, txt)
			s.also = append(s.also, func(got string) string {
				u, err := time.Parse("2006-01-02 15:04:05.999999999", got)
				if err == nil && u.Equal(time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.UTC)) {
					return sym
				}
				return ""
			})
			return t
		case "float64", "float32":
			f := math.Float64frombits(s.rng.Uint64())
			switch s.rng.Intn(3) {
			case 0:
				f = float64(s.rng.Intn(2000000)-1000000) / []float64{1, 2, 10, 100, 1000, 7}[s.rng.Intn(6)]
			case 1:
				f = math.Ldexp(s.rng.Float64()-0.5, s.rng.Intn(200)-100)
			}
			bits := 64
			if g == "float32" {
				bits, f = 32, float64(float32(f))
			}
			if math.IsNaN(f) || math.IsInf(f, 0) { // known finding: has no literal
				continue
			}
			if !s.takeNum(sym, strconv.FormatFloat(f, 'g', -1, bits)) {
				continue
			}
			s.also = append(s.also, func(got string) string {
				x, err := strconv.ParseFloat(got, bits)
				if err == nil && x == f {
					return sym
				}
				return ""
			})
			if bits == 32 {
				return float32(f)
			}
			return f
		case "int8":
			v = take(int8(n(7, true)))
		case "int16":
			v = take(int16(n(15, true)))
		case "int32":
			v = take(int32(n(31, true)))
		case "int64":
			v = take(n(63, true))
		case "int":
			v = take(int(n(63, true)))
		case "uint8":
			v = take(uint8(n(8, false)))
		case "uint16":
			v = take(uint16(n(16, false)))
		case "uint32":
			v = take(uint32(n(32, false)))
		case "uint64":
			u := uint64(n(63, false))
			if !limit && s.rng.Intn(2) == 0 {
				u |= 1 << 63
			}
			v = take(u)
		case "uint":
			v = take(uint(n(63, false)))
		default:
			panic("unknown parameter type " + g)
		}
		if v != nil {
			return v
		}
	}
}

func runBind(seed int64, line []byte, emit func(any)) {
	var v bindVec
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*1000003 + int64(v.ID))
	s.fixAll(v.Syms)
	params := stmt.BindParams{}
	desc := []string{}
	for _, p := range v.Params {
		x := s.param(p.G, p.Sym)
		params = append(params, stmt.NewBindParam(x))
		desc = append(desc, fmt.Sprintf("%T(%+q)", x, fmt.Sprint(x)))
	}
	text := ""
	if v.Text != nil {
		text = *v.Text
	} else {
		text = s.render(&v.sqlVec)
	}
	// a bind statement gives the same statements whenever it is asked
	bs := stmt.NewBindStatement(stmt.WithBindStatementQuery(text), stmt.WithBindStatementParams(params))
	runs := []any{}
	for range 2 {
		var r parseResult
		if p := guarded(func() {
			stmts, err := bs.Statements()
			qs := []query.Statement{}
			for _, st := range stmts {
				qs = append(qs, st)
			}
			r = result(qs, err)
		}); p != "" {
			r = parseResult{res: "panic", err: p}
		}
		asts, hs, pan := s.projectAll(r.stmts)
		if pan != "" {
			r.res, r.err = "panic", pan
		}
		runs = append(runs, obj{"res": r.res, "asts": asts, "hs": hs, "_err": r.err})
	}
	emit(obj{"id": v.ID, "toks": v.Toks, "params": v.Params, "runs": runs, "_text": text, "_params": desc})
}
