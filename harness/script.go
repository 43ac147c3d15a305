package main

import (
	"encoding/json"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("script", runScript) }

// scriptVec is a script: the tokens of its statements, which of them are
// valid, and the separators before each and at the end.
type scriptVec struct {
	ID    int        `json:"id"`
	Texts [][]string `json:"texts"`
	OK    []bool     `json:"ok"`
	Seps  []string   `json:"seps"`
	Text  []string   `json:"text"` // known findings: fixed texts
}

var sepTexts = map[string]string{"semi": ";", "space": " ; ", "nl": ";\n", "two": ";;", "many": " ; ;\n; ", "line": "; -- it's; \n", "block": ";/* ; ' */",
	"before": "\n;", "comment": " -- a; b\n;", "none": "", "blank": " \n", "leadline": "-- c;\n", "leadblock": "/* ; */"}

// statement is what is compared: the printed text, the kind and the projection.
func (s *symtab) statement(st query.Statement) obj {
	return obj{"k": st.StatementType().String(), "text": st.String(), "ast": s.project(st)}
}

func runScript(seed int64, line []byte, emit func(any)) {
	var v scriptVec
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*1000003 + int64(v.ID))
	s.tame = true
	texts := v.Text
	if len(texts) == 0 {
		for _, toks := range v.Texts {
			texts = append(texts, s.render(&sqlVec{Toks: toks}))
		}
	}
	var b strings.Builder
	for i, t := range texts {
		b.WriteString(sepTexts[v.Seps[i]])
		b.WriteString(t)
	}
	b.WriteString(sepTexts[v.Seps[len(texts)]])
	pan := ""
	observe := func(text string) obj {
		r := parse(text)
		stmts := []any{}
		p := guarded(func() {
			for _, st := range r.stmts {
				stmts = append(stmts, s.statement(st))
			}
		})
		if p != "" {
			pan = p
		}
		if r.res == "panic" {
			pan = "panic: " + r.err
		}
		return obj{"res": r.res, "stmts": stmts, "_err": r.err}
	}
	alone := []any{}
	for _, t := range texts {
		alone = append(alone, observe(t))
	}
	whole := observe(b.String())
	emit(obj{"id": v.ID, "ok": v.OK, "alone": alone, "whole": whole, "panic": pan, "_text": b.String()})
}
