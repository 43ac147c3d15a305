package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"
)

// symtab maps the symbols of one behaviour to concrete text and back.
type symtab struct {
	rng    *rand.Rand
	text   map[string]string // symbol -> value (string content, identifier name, number text, ...)
	ids    map[string]string // identifier name -> symbol
	strs   map[string]string // string content -> symbol
	nums   map[string]string // number text -> symbol
	blobs  map[string]string
	fns    map[string]string // upper-case function name -> symbol
	binds  map[string]string
	folded map[string]bool // case-folded identifier names in use
	weird  bool            // quoted identifiers with arbitrary content are allowed
	tame   bool            // quoted identifiers with arbitrary content are never allowed
	plain  bool            // never quote identifiers
	also   []func(string) string // other texts of symbols (bound parameters)
	quoted map[string]bool // quoting of the identifiers of a CREATE TABLE
}

func newSymtab(seed int64) *symtab {
	return &symtab{
		rng: rand.New(rand.NewSource(seed)), text: map[string]string{},
		ids: map[string]string{}, strs: map[string]string{}, nums: map[string]string{},
		blobs: map[string]string{}, fns: map[string]string{}, binds: map[string]string{},
		folded: map[string]bool{},
	}
}

var keywords = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields(`ABORT ACTION ADD AFTER ALL ALTER ALWAYS ANALYZE AND AS ASC ATTACH AUTOINCREMENT
BEFORE BEGIN BETWEEN BY CASCADE CASE CAST CHECK COLLATE COLUMN COMMIT CONFLICT CONSTRAINT COPY CREATE CROSS
CURRENT CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DATABASE DEFAULT DEFERRABLE DEFERRED DELETE DESC DETACH DISTINCT DO DROP
EACH ELSE END ENGINE ESCAPE EXCEPT EXCLUDE EXCLUSIVE EXISTS EXPLAIN FAIL FALSE FILTER FIRST FOLLOWING FOR FOREIGN FORMAT FROM FULL
GENERATED GLOB GROUP GROUPS HAVING IF IGNORE IMMEDIATE IN INDEX INDEXED INITIALLY INNER INSERT INSTEAD INTERSECT INTO IS ISNULL
JOIN KEY LAST LEFT LIKE LIMIT MATCH NATURAL NO NOT NOTHING NOTNULL NULL NULLS OF OFFSET ON OR ORDER OTHERS OUTER OVER
PARTITION PLAN PRAGMA PRECEDING PRIMARY QUERY RAISE RANGE RECURSIVE REFERENCES REGEXP REINDEX RELEASE RENAME REPLACE RESTRICT
RIGHT ROLLBACK ROW ROWS SAVEPOINT SELECT SET STDIN STORED TABLE TEMP TEMPORARY THEN TIES TO TRANSACTION TRIGGER TRUE TRUNCATE
UNBOUNDED UNION UNIQUE UPDATE USE USING VACUUM VALUES VIEW VIRTUAL WHEN WHERE WINDOW WITH WITHOUT
CSV TEXT BINARY PRECISION
BIGINT BIT BLOB BOOLEAN CHAR CHARACTER CLOB DATE DATETIME DECIMAL DOUBLE FLOAT INT INTEGER LONGBLOB LONGTEXT MEDIUMBLOB
MEDIUMINT MEDIUMTEXT NUMERIC REAL SMALLINT TIME TIMESTAMP TINYBLOB TINYINT TINYTEXT VARBINARY VARCHAR VARCHARACTER YEAR
SERIAL BIGSERIAL SMALLSERIAL NAME ROWID LEAD LAG RANK ROW_NUMBER FIRST_VALUE LAST_VALUE DENSE_RANK CUME_DIST PERCENT_RANK
NTILE NTH_VALUE`) {
		m[k] = true
	}
	return m
}()

var aggrNames = []string{"COUNT", "SUM", "AVG", "MIN", "MAX"}
var fnNames = []string{"ABS", "CEIL", "FLOOR", "ROUND", "UPPER", "LOWER", "TRIM", "POWER", "my_func", "SQRT", "Now",
	"F1", "concat_ws", "sum_of", "counter", "minmax"}

var idStyles = []string{"c%d", "col_%d", "_%d", "__x%d", "selector%d", "from_%d", "orderBy%d", "limit%d", "x%d", "e%d",
	"KEY%d", "Tbl%d", "nullable%d", "is_not%d", "andy%d", "o_r%d", "a1b2c3_%d", "z%d_", "TRUE_%d", "index_%d", "VALUES%dX",
	"very_long_identifier_name_which_goes_on_and_on_for_quite_some_time_%d", "I%d", "d%ds", "as%d", "b%de5", "primary_key%d"}
var weirdIds = []string{"a b %d", "select %d", "order by%d", "it's %d", "x-y%d", "semi;colon%d", "日本%d", "-- %d", "?%d", "(p%d)",
	"a,b%d", "%d", "$%d", "WHERE%d", "`%d"}

func (s *symtab) ident(sym string) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	k := 0
	fmt.Sscanf(sym[1:], "%d", &k)
	for {
		style := idStyles[s.rng.Intn(len(idStyles))]
		if s.weird && s.rng.Intn(3) == 0 {
			style = weirdIds[s.rng.Intn(len(weirdIds))]
		}
		name := fmt.Sprintf(style, k+10*s.rng.Intn(2))
		if k <= 5 && !s.weird && s.rng.Intn(4) == 0 {
			name = string(rune('a'+s.rng.Intn(26))) + []string{"", "b", "_"}[s.rng.Intn(3)]
			if s.rng.Intn(2) == 0 {
				name = strings.ToUpper(name)
			}
		}
		up := strings.ToUpper(name)
		if keywords[up] || s.folded[up] || isFnName(up) {
			continue
		}
		s.folded[up] = true
		s.text[sym] = name
		s.ids[name] = sym
		return name
	}
}

func isFnName(up string) bool {
	for _, f := range append(append([]string{}, fnNames...), aggrNames...) {
		if strings.ToUpper(f) == up {
			return true
		}
	}
	return false
}

var strPool = []string{"", "a", "abc", "it's", "''", "'", "\"", "\"quoted\"", "a;b", ";", "--", "-- comment", "/* c */", "*/", "?", "$1", ":x",
	"100%", "\\", "\\'", "\\n", "line1\nline2", "\r\n", "\t", " ", "  lead and trail  ", "日本語", "Ünïcödé", "😀", "NULL", "null", "TRUE", "42", "-1.5",
	"SELECT * FROM t", "' OR '1'='1", "a'; DROP TABLE t; --", "x'ab'", "(", ")", ",", "=", "<>", "`", "[x]", "{}", "{\"k\":\"v\"}", "\u00a0", "\u200b", "\x01", "%v %s %d", "CURRENT_TIMESTAMP", "*", "''''", "'a", "a'", "\"a", "it''s"}

func (s *symtab) str(sym string) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	for n := 0; ; n++ {
		var v string
		switch r := s.rng.Intn(10); {
		case r < 6:
			v = strPool[s.rng.Intn(len(strPool))]
		case r < 8:
			v = strPool[s.rng.Intn(len(strPool))] + strPool[s.rng.Intn(len(strPool))]
		case r == 8:
			v = s.randText(1 + s.rng.Intn(12))
		default:
			v = strings.Repeat(strPool[1+s.rng.Intn(len(strPool)-1)], 1+s.rng.Intn(60))
		}
		if _, used := s.strs[v]; used || strings.EqualFold(v, "STDIN") || !utf8.ValidString(v) {
			if n > 200 {
				v = fmt.Sprintf("%s#%s", v, sym)
			} else {
				continue
			}
		}
		s.text[sym] = v
		s.strs[v] = sym
		return v
	}
}

func (s *symtab) randText(n int) string {
	var b strings.Builder
	alpha := []rune("ab'\";-?$:%\\\n\t ()*,=<>/0é漢😀`")
	for ; n > 0; n-- {
		b.WriteRune(alpha[s.rng.Intn(len(alpha))])
	}
	return b.String()
}

var numPool = []string{"0", "1", "-1", "+7", "3.14", "-0.5", ".5", "1.", "1e5", "1E-3", "-2.5e+10", "0x1F", "9223372036854775807",
	"9223372036854775808", "-9223372036854775808", "123456789012345678901234567890", "007", "0.1", "100", "-100", "42", "1e400", "0.000001", "2147483648"}

func (s *symtab) num(sym string) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	for n := 0; ; n++ {
		var v string
		switch s.rng.Intn(3) {
		case 0:
			v = numPool[s.rng.Intn(len(numPool))]
		case 1:
			v = fmt.Sprintf("%d", s.rng.Int63()>>uint(s.rng.Intn(62))) // any magnitude
		default:
			v = fmt.Sprintf("%d.%d", s.rng.Intn(1000), s.rng.Intn(1000))
		}
		if s.rng.Intn(4) == 0 && v[0] != '-' && v[0] != '+' {
			v = "-" + v
		}
		if s.takeNum(sym, v) {
			return v
		}
	}
}

func (s *symtab) takeNum(sym, v string) bool {
	if _, used := s.nums[v]; used {
		return false
	}
	if _, used := s.nums[strings.TrimLeft(v, "+-")]; used {
		return false
	}
	s.text[sym] = v
	s.nums[v] = sym
	return true
}

// uint64 values (LIMIT, OFFSET) and sizes
func (s *symtab) uint(sym string, bits uint) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	for {
		u := s.rng.Uint64() >> (64 - bits + uint(s.rng.Intn(int(bits)-1)))
		if s.rng.Intn(3) > 0 {
			u = uint64(1 + s.rng.Intn(1000))
		}
		if u == 0 {
			continue
		}
		if v := fmt.Sprintf("%d", u); s.takeNum(sym, v) {
			return v
		}
	}
}

func (s *symtab) blob(sym string) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	for {
		n := 1 + s.rng.Intn(6)
		v := ""
		for ; n > 0; n-- {
			v += fmt.Sprintf([]string{"%02x", "%02X"}[s.rng.Intn(2)], s.rng.Intn(256))
		}
		v = []string{"x'", "X'"}[s.rng.Intn(2)] + v + "'"
		if _, used := s.blobs[v]; !used {
			s.text[sym] = v
			s.blobs[v] = sym
			return v
		}
	}
}

func (s *symtab) fn(sym string) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	k := 1
	fmt.Sscanf(sym[1:], "%d", &k)
	for {
		v := ""
		if sym[0] == 'g' {
			v = aggrNames[(k-1)%len(aggrNames)]
		} else {
			v = fnNames[s.rng.Intn(len(fnNames))]
		}
		if _, used := s.fns[strings.ToUpper(v)]; !used {
			s.text[sym] = v
			s.fns[strings.ToUpper(v)] = sym
			return v
		}
	}
}

func (s *symtab) bind(sym string) string {
	if v, ok := s.text[sym]; ok {
		return v
	}
	v := "$" + sym[1:]
	if sym[0] == 'c' {
		v = ":p" + sym[1:]
	}
	s.text[sym] = v
	s.binds[v] = sym
	return v
}

func class(tok string) byte {
	if len(tok) > 1 && tok[0] >= 'a' && tok[0] <= 'z' && tok[1] >= '0' && tok[1] <= '9' {
		return tok[0]
	}
	return 0
}

// literalText returns the SQL text of a token; word tells that it is a word
// (letters), which needs separation from other words.
func (s *symtab) tokenText(tok string, caseMode int, quote bool) string {
	switch class(tok) {
	case 'i':
		name := s.ident(tok)
		if quote || !isPlainIdent(name) {
			return `"` + name + `"`
		}
		return name
	case 's':
		return "'" + strings.ReplaceAll(s.str(tok), "'", "''") + "'"
	case 'n':
		return s.num(tok)
	case 'u':
		return s.uint(tok, 64)
	case 'z':
		return s.uint(tok, 31)
	case 'x':
		return s.blob(tok)
	case 'f', 'g':
		return caseOf(s.fn(tok), caseMode)
	case 'd', 'c':
		return s.bind(tok)
	}
	return caseOf(tok, caseMode)
}

func isPlainIdent(name string) bool {
	for i, c := range name {
		ok := c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i > 0 && c >= '0' && c <= '9')
		if !ok {
			return false
		}
	}
	return name != ""
}

// caseOf writes a word in upper (0), lower (1) or mixed (2) case.
func caseOf(w string, mode int) string {
	switch mode {
	case 1:
		return strings.ToLower(w)
	case 2:
		b := []byte(strings.ToUpper(w))
		for i := range b {
			if i%2 == 1 && b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 'a' - 'A'
			}
		}
		return string(b)
	}
	return w
}

// name translates a reported name (possibly dotted or computed) to symbols.
func (s *symtab) name(v string) string { return strings.Join(s.lex(v), "") }

// lex splits SQL text into tokens of the specification.
func (s *symtab) lex(v string) []string {
	toks := []string{}
	operand := false // the previous token can end an operand
	i := 0
	push := func(t string, op bool) { toks = append(toks, t); operand = op }
	for i < len(v) {
		c := v[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v':
			i++
		case strings.HasPrefix(v[i:], "--"):
			push("!comment", false)
			i = len(v)
		case strings.HasPrefix(v[i:], "/*"):
			push("!comment", false)
			i += 2
		case c == '\'' || ((c == 'x' || c == 'X') && i+1 < len(v) && v[i+1] == '\''):
			j := i + 1
			if c != '\'' {
				j++
			}
			start := j
			for {
				k := strings.IndexByte(v[j:], '\'')
				if k < 0 {
					j = -1
					break
				}
				j += k + 1
				if j < len(v) && v[j] == '\'' {
					j++
					continue
				}
				break
			}
			if j < 0 {
				push("!unterminated", true)
				i = len(v)
				break
			}
			if c != '\'' {
				push(s.find(s.blobs, v[i:j]), true)
			} else {
				push(s.find(s.strs, strings.ReplaceAll(v[start:j-1], "''", "'")), true)
			}
			i = j
		case c == '"' || c == '`':
			k := strings.IndexByte(v[i+1:], c)
			if k < 0 {
				push("!unterminated", true)
				i = len(v)
				break
			}
			push(lookup(s.ids, v[i+1:i+1+k]), true)
			i += k + 2
		case c >= '0' && c <= '9', c == '.' && i+1 < len(v) && v[i+1] >= '0' && v[i+1] <= '9',
			(c == '-' || c == '+') && !operand && i+1 < len(v) && (v[i+1] >= '0' && v[i+1] <= '9' || v[i+1] == '.'):
			j := numEnd(v, i)
			push(s.find(s.nums, v[i:j]), true)
			i = j
		case c == '?':
			push("?", true)
			i++
		case c == '$' || c == ':':
			j := i + 1
			for j < len(v) && isWordByte(v[j]) {
				j++
			}
			push(lookup(s.binds, v[i:j]), true)
			i = j
		case isWordByte(c):
			j := i
			for j < len(v) && isWordByte(v[j]) {
				j++
			}
			w := v[i:j]
			i = j
			if sym, ok := s.ids[w]; ok {
				push(sym, true)
			} else if keywords[strings.ToUpper(w)] {
				up := strings.ToUpper(w)
				push(up, false)
			} else if sym, ok := s.fns[strings.ToUpper(w)]; ok {
				push(sym, false)
			} else {
				push("!"+w, true)
			}
		default:
			two := ""
			if i+1 < len(v) {
				two = v[i : i+2]
			}
			switch two {
			case "!=", "<>", "<=", ">=":
				push(two, false)
				i += 2
			default:
				_, n := utf8.DecodeRuneInString(v[i:])
				t := v[i : i+n]
				if n > 1 || !strings.Contains("()*,.=<>+-/%;", t) {
					t = fmt.Sprintf("!char%q", t)
				}
				push(t, t == ")")
				i += n
			}
		}
	}
	return toks
}

func isWordByte(c byte) bool {
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
}

func numEnd(v string, i int) int {
	j := i
	if v[j] == '-' || v[j] == '+' {
		j++
	}
	if strings.HasPrefix(v[j:], "0x") || strings.HasPrefix(v[j:], "0X") {
		j += 2
		for j < len(v) && isWordByte(v[j]) {
			j++
		}
		return j
	}
	for j < len(v) && (v[j] >= '0' && v[j] <= '9' || v[j] == '.') {
		j++
	}
	if j < len(v) && (v[j] == 'e' || v[j] == 'E') {
		k := j + 1
		if k < len(v) && (v[k] == '+' || v[k] == '-') {
			k++
		}
		if k < len(v) && v[k] >= '0' && v[k] <= '9' {
			for k < len(v) && v[k] >= '0' && v[k] <= '9' {
				k++
			}
			return k
		}
	}
	return j
}

// find looks a text up; bound parameters may be written in several ways.
func (s *symtab) find(m map[string]string, v string) string {
	if sym, ok := m[v]; ok {
		return sym
	}
	for _, f := range s.also {
		if sym := f(v); sym != "" {
			return sym
		}
	}
	return lookup(m, v)
}

func lookup(m map[string]string, v string) string {
	if sym, ok := m[v]; ok {
		return sym
	}
	return fmt.Sprintf("!%+q", v)
}
