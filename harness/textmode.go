package main

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("text", runText) }

// textVec is a text to parse: the tokens it is rendered from (or the fixed
// text) and the edits then made in it.
type textVec struct {
	sqlVec
	Edits []textEdit `json:"edits"`
}

type textEdit struct {
	Op string `json:"op"`
	At int    `json:"at"`
	Ch string `json:"ch"`
}

func (e textEdit) apply(t []rune) []rune {
	p := e.At * len(t) / 1000
	upto := func(k int) []rune { return append([]rune{}, t[:min(k, len(t))]...) }
	from := func(k int) []rune { return t[min(k, len(t)):] }
	switch e.Op {
	case "del":
		return append(upto(p), from(p+1)...)
	case "ins":
		return append(append(upto(p), []rune(e.Ch)...), from(p)...)
	case "rep":
		return append(append(upto(p), []rune(e.Ch)...), from(p+1)...)
	case "dup":
		return append(upto(p+1), from(p)...)
	case "cut":
		return upto(p)
	case "tail":
		return from(p)
	case "swap":
		if p+1 < len(t) {
			return append(append(upto(p), t[p+1], t[p]), from(p+2)...)
		}
		return t
	case "many":
		return append(append(upto(p), []rune(strings.Repeat(e.Ch, 60))...), from(p)...)
	case "span":
		return append(upto(p), from(p+5)...)
	}
	return t
}

func runText(seed int64, line []byte, emit func(any)) {
	var v textVec
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*1000003 + int64(v.ID))
	was := ""
	if v.Text != nil {
		was = *v.Text
	} else {
		was = s.render(&v.sqlVec)
	}
	t := []rune(was)
	plain := true
	for _, c := range t {
		plain = plain && c < 0x10000 && c != 0xfffd
	}
	for _, e := range v.Edits {
		t = e.apply(t)
	}
	text := string(t)
	var stmts []query.Statement
	var err error
	r := parseResult{}
	p := guarded(func() {
		stmts, err = sql.NewParser().ParseString(text)
		r = result(stmts, err)
	})
	if p != "" {
		r = parseResult{res: "panic", err: p}
	}
	printed := []string{}
	if p == "" { // the statements can be printed and read
		p = guarded(func() {
			for _, st := range stmts {
				printed = append(printed, st.String())
				s.project(st)
				s.helpers(st)
			}
		})
		if p != "" {
			r = parseResult{res: "panic", err: p}
		}
	}
	if v.Edits == nil {
		v.Edits = []textEdit{}
	}
	emit(obj{"id": v.ID, "was": was, "edits": v.Edits, "plain": plain, "text": text, "res": r.res, "n": len(stmts),
		"empty": err != nil && errors.Is(err, sql.ErrEmptyQuery), "_text": text, "_err": r.err, "printed": printed})
}
