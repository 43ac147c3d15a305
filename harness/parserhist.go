package main

import (
	"encoding/json"
	"fmt"
	"sync"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("parserhist", runParserHist) }

type phText struct {
	Toks  []string `json:"toks"`
	Valid bool     `json:"valid"`
}

type phOp struct {
	Op string `json:"op"`
	P  int    `json:"p"`
	T  int    `json:"t"`
}

// show is a projected parse result.
func (s *symtab) phShow(r parseResult) obj {
	asts, _, pan := s.projectAll(r.stmts)
	if pan != "" {
		return obj{"res": "panic", "asts": []any{}, "err": pan}
	}
	printed := ""
	if len(asts) > 0 {
		for _, st := range r.stmts {
			a := 0
			if p := guarded(func() { a = len(st.String()) }); p != "" || a == 0 {
				printed = "not printable"
			}
		}
	}
	_ = printed
	return obj{"res": r.res, "asts": asts, "err": r.err}
}

// spoil overwrites a result through its interface.
func phSpoil(stmts []query.Statement) {
	for _, st := range stmts {
		switch st := st.(type) {
		case query.Insert:
			for _, cols := range st.Values() {
				for i, c := range cols {
					c.SetValue("spoiled")
					cols[i] = query.NewColumnWithName("spoiled")
				}
			}
		case query.Update:
			for i, c := range st.Columns() {
				c.SetValue("spoiled")
				st.Columns()[i] = query.NewColumnWithName("spoiled")
			}
		case query.Select:
			for i := range st.From() {
				st.From()[i] = query.NewTableWith("spoiled")
			}
			for i := range st.Selectors() {
				st.Selectors()[i] = query.NewColumnWithName("spoiled")
			}
			for i := range st.OrderBy().Orders() {
				st.OrderBy().Orders()[i] = query.NewOrderWith("spoiled", query.OrderDesc)
			}
		}
	}
	for i := range stmts {
		stmts[i] = nil
	}
}

func phParse(p sql.Parser, text string) (r parseResult) {
	if pan := guarded(func() { r = result(p.ParseString(text)) }); pan != "" {
		return parseResult{res: "panic", err: pan}
	}
	return r
}

func runParserHist(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID      int      `json:"id"`
		Texts   []phText `json:"texts"`
		Ops     []phOp   `json:"ops"`
		Threads [][]int  `json:"threads"`
	}
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*7000003 + int64(v.ID))
	texts := []string{}
	for _, t := range v.Texts { // the texts share their symbols: names have to suit all of them
		for i, x := range t.Toks {
			if i == 0 || t.Toks[i-1] == ";" {
				switch x {
				case "SELECT", "UPDATE", "DELETE", ";":
				default:
					s.tame = true
				}
			}
		}
	}
	for _, t := range v.Texts {
		s.quoted = map[string]bool{}
		texts = append(texts, s.render(&sqlVec{Toks: t.Toks}))
	}
	res, events := []any{}, []any{}
	pan := guarded(func() {
		parsers := map[int]sql.Parser{}
		parser := func(n int) sql.Parser {
			if n == 0 {
				return sql.NewParser()
			}
			if parsers[n] == nil {
				parsers[n] = sql.NewParser()
			}
			return parsers[n]
		}
		kept := []parseResult{}
		at := []int{}
		for i, o := range v.Ops {
			r := obj{"now": obj{"res": "", "asts": []any{}, "err": ""}, "later": obj{"res": "", "asts": []any{}, "err": ""}}
			res = append(res, r)
			if o.Op == "spoil" {
				phSpoil(kept[o.T-1].stmts)
				kept[o.T-1].stmts = nil
				continue
			}
			x := phParse(parser(o.P), texts[o.T-1])
			kept, at = append(kept, x), append(at, i)
			r["now"] = s.phShow(x)
		}
		for j, x := range kept {
			res[at[j]].(obj)["later"] = s.phShow(x)
		}
	})
	if len(v.Threads) > 0 && pan == "" {
		outs := make([][]parseResult, len(v.Threads))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, ts := range v.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := sql.NewParser()
				<-start
				for _, t := range ts {
					x := phParse(p, texts[t-1])
					for _, st := range x.stmts {
						guarded(func() { _ = st.String() })
					}
					outs[i] = append(outs[i], x)
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, ts := range v.Threads {
			for j, t := range ts {
				events = append(events, obj{"t": t, "now": s.phShow(outs[i][j])})
			}
		}
		n := 0
		for i, ts := range v.Threads {
			for j := range ts {
				events[n].(obj)["later"] = s.phShow(outs[i][j])
				n++
			}
		}
	}
	emit(obj{"id": v.ID, "texts": v.Texts, "ops": v.Ops, "res": res, "events": events, "panic": pan, "_text": fmt.Sprintf("%q", texts)})
}
