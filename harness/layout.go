package main

import "encoding/json"

func init() { register("layout", runLayout) }

// layoutVec is one script and several layouts of it.
type layoutVec struct {
	sqlVec
	Lays []struct {
		Gaps []string `json:"gaps"`
		Case []int    `json:"cases"`
		Tail string   `json:"tail"`
	} `json:"lays"`
	Texts []string `json:"texts"` // known findings: fixed texts
}

func runLayout(seed int64, line []byte, emit func(any)) {
	var v layoutVec
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*1000003 + int64(v.ID))
	s.fixAll(v.Syms)
	texts := v.Texts
	for _, y := range v.Lays {
		texts = append(texts, s.render(&sqlVec{Toks: v.Toks, Gaps: y.Gaps, Case: y.Case, Tail: y.Tail}))
	}
	runs := []any{}
	for _, t := range texts {
		r := parse(t)
		asts, hs, pan := s.projectAll(r.stmts)
		if pan != "" {
			r.res, r.err = "panic", pan
		}
		runs = append(runs, obj{"res": r.res, "asts": asts, "hs": hs, "_text": t, "_err": r.err})
	}
	t := ""
	if len(texts) > 0 {
		t = texts[0]
	}
	emit(obj{"id": v.ID, "toks": v.Toks, "runs": runs, "_text": t})
}
