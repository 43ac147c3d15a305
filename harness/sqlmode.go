package main

import (
	"encoding/json"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("sql", runSQL) }

// sqlVec is one script: its tokens and, optionally, its layout (one gap kind
// and one case kind per token, chosen by the specification).
type sqlVec struct {
	ID   int      `json:"id"`
	Toks []string `json:"toks"`
	Gaps []string `json:"gaps"`
	Case []int    `json:"cases"`
	Tail string   `json:"tail"`
	Text *string  `json:"text"` // known findings: fixed text
	Syms obj      `json:"syms"` // known findings: fixed symbols
	Err  bool     `json:"err"`
}

// layout renders tokens as text.
func (s *symtab) render(v *sqlVec) string {
	s.weird, s.plain = !s.tame, false
	inTable := false
	for i, t := range v.Toks {
		if i == 0 || v.Toks[i-1] == ";" {
			switch t {
			case "SELECT", "UPDATE", "DELETE", ";":
			case "COPY":
				s.plain, s.weird = true, false
			default:
				s.weird = false
			}
		}
	}
	if !s.plain && s.rng.Intn(4) > 0 { // mostly unquoted
		s.plain = true
	}
	if s.plain {
		s.weird = false
	}
	upper := s.rng.Intn(4) == 0
	dense := s.rng.Intn(4) == 0
	var b strings.Builder
	if len(v.Gaps) == 0 && s.rng.Intn(8) == 0 {
		b.WriteString([]string{" ", "\n", "-- c\n", "/* c */ "}[s.rng.Intn(4)])
	}
	for i, t := range v.Toks {
		if i == 0 || v.Toks[i-1] == ";" {
			s.quoted = map[string]bool{}
			inTable = t == "CREATE" && i+1 < len(v.Toks) && v.Toks[i+1] == "TABLE"
		}
		if len(v.Gaps) > 0 {
			b.WriteString(strings.ReplaceAll(v.Gaps[i], "VT", "\v"))
		} else if i > 0 {
			gap := s.randGap(dense)
			if gap == "" && !canTouch(v.Toks[i-1], t) {
				gap = " "
			}
			b.WriteString(gapText(gap))
		}
		mode := 0
		if len(v.Case) > 0 {
			mode = v.Case[i]
		} else if !upper {
			mode = s.rng.Intn(3)
		}
		quote := !s.plain && s.rng.Intn(2) == 0
		if inTable { // known finding: a column and its index must be quoted alike
			if q, ok := s.quoted[t]; ok {
				quote = q
			}
			s.quoted[t] = quote
		}
		b.WriteString(s.tokenText(t, mode, quote))
	}
	b.WriteString(strings.ReplaceAll(v.Tail, "VT", "\v"))
	return b.String()
}

// canTouch tells whether two tokens may be written without a separator.
func canTouch(a, b string) bool {
	punct := func(t string) bool {
		switch t {
		case "(", ")", ",", ";", "=", "!=", "<>", "<", ">", "<=", ">=":
			return true
		}
		return false
	}
	if a == "." || b == "." {
		return true
	}
	return punct(a) || punct(b)
}

func (s *symtab) randGap(dense bool) string {
	if dense {
		return ""
	}
	switch s.rng.Intn(16) {
	case 0, 1:
		return ""
	case 2:
		return "nl"
	case 3:
		return "tab"
	case 4:
		return "crlf"
	case 5:
		return "block"
	case 6:
		return "line"
	case 7:
		return "wide"
	}
	return " "
}

func gapText(g string) string {
	switch g {
	case "nl":
		return "\n"
	case "tab":
		return "\t"
	case "crlf":
		return "\r\n"
	case "wide":
		return "  \t \n "
	case "block":
		return "/* it's ; \" ? $1 */"
	case "line":
		return " -- it's ; \" ? $2 /* \n"
	}
	return g
}

type parseResult struct {
	res   string
	stmts []query.Statement
	err   string
}

func parse(text string) parseResult {
	var r parseResult
	p := guarded(func() {
		stmts, err := sql.NewParser().ParseString(text)
		r = result(stmts, err)
	})
	if p != "" {
		return parseResult{res: "panic", err: p}
	}
	return r
}

func result(stmts []query.Statement, err error) parseResult {
	switch {
	case err != nil && len(stmts) > 0:
		return parseResult{res: "both", stmts: stmts, err: err.Error()}
	case err != nil:
		return parseResult{res: "err", err: err.Error()}
	default:
		return parseResult{res: "ok", stmts: stmts}
	}
}

func (s *symtab) projectAll(stmts []query.Statement) (asts []any, hs []any, pan string) {
	asts, hs = []any{}, []any{}
	for _, st := range stmts {
		p := guarded(func() {
			a, h := s.project(st), s.helpers(st)
			asts = append(asts, a)
			hs = append(hs, h)
		})
		if p != "" {
			return asts, hs, p
		}
	}
	return
}

func runSQL(seed int64, line []byte, emit func(any)) {
	var v sqlVec
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*1000003 + int64(v.ID))
	s.fixAll(v.Syms)
	text := ""
	if v.Text != nil {
		text = *v.Text
	} else {
		text = s.render(&v)
	}
	emit(s.observe(v.ID, v.Toks, text))
}

// litChars gives the characters Literal.tla has names for.
var litChars = map[string]string{"q": "'", "dq": "\"", "bq": "`", "semi": ";", "dash": "-", "star": "*", "slash": "/", "nl": "\n", "cr": "\r", "tab": "\t", "bs": "\\",
	"qm": "?", "dol": "$", "colon": ":", "at": "@", "pct": "%", "sp": " ", "one": "1", "zero": "0", "comma": ",", "lp": "(", "rp": ")", "eq": "=", "dot": ".", "us": "_",
	"lb": "[", "rb": "]", "brace": "{", "hash": "#", "amp": "&", "vt": "\v", "nul": "\x00", "ctl": "\x01", "del": "\x7f", "eacute": "é", "cjk": "漢", "emoji": "😀",
	"bom": "\ufeff", "nbsp": "\u00a0", "ls": "\u2028", "comb": "\u0301", "last": "\U0010ffff", "rquo": "\u2019"}

// fixAll binds the symbols to given texts (or sequences of characters).
func (s *symtab) fixAll(syms obj) {
	for sym, t := range syms {
		if l, ok := t.([]any); ok {
			text := ""
			for _, c := range l {
				ch := c.(string)
				if x, ok := litChars[ch]; ok {
					ch = x
				}
				text += ch
			}
			s.fix(sym, text)
			continue
		}
		s.fix(sym, t.(string))
	}
}

// fix binds a symbol to a given text.
func (s *symtab) fix(sym, t string) {
	s.text[sym] = t
	switch class(sym) {
	case 'i':
		s.ids[t] = sym
	case 's':
		s.strs[t] = sym
	case 'x':
		s.blobs[t] = sym
	case 'f', 'g':
		s.fns[strings.ToUpper(t)] = sym
	case 'd', 'c':
		s.binds[t] = sym
	default:
		s.nums[t] = sym
	}
}

func (s *symtab) observe(id int, toks []string, text string) obj {
	r := parse(text)
	asts, hs, pan := s.projectAll(r.stmts)
	prs := []any{}
	printed := []string{}
	if pan == "" {
		for _, st := range r.stmts {
			pr, p := s.reprint(st)
			prs = append(prs, pr)
			printed = append(printed, p)
		}
	}
	if pan != "" {
		r.res, r.err = "panic", pan
	}
	return obj{"id": id, "toks": toks, "res": r.res, "asts": asts, "hs": hs, "pr": prs,
		"_text": text, "_err": r.err, "_printed": printed}
}

// reprint prints a statement, parses the text and prints the result again.
func (s *symtab) reprint(st query.Statement) (obj, string) {
	text := ""
	if p := guarded(func() { text = st.String() }); p != "" {
		return obj{"toks": []any{}, "res": "panic", "asts": []any{}, "fix": false}, p
	}
	r := parse(text)
	asts, _, pan := s.projectAll(r.stmts)
	if pan != "" {
		r.res = "panic"
	}
	fix := false
	guarded(func() { fix = len(r.stmts) == 1 && r.stmts[0].String() == text })
	return obj{"toks": s.lex(text), "res": r.res, "asts": asts, "fix": fix}, text
}
