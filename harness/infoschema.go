package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

func init() { register("infoschema", runInfoSchema) }

type isOp struct {
	Op   string     `json:"op"`
	DB   string     `json:"db"`
	Ts   []string   `json:"ts"`
	Cs   [][]string `json:"cs"`
	Cmp  string     `json:"cmp"`
	Join string     `json:"join"`
	Tab  string     `json:"tab"`
	Case int        `json:"case"`
	N    scName     `json:"n"`
	Ss   []struct {
		T    string `json:"t"`
		Cols []struct {
			N  scName `json:"n"`
			Ty string `json:"ty"`
		} `json:"cols"`
	} `json:"ss"`
}

// isName is the text of a database or table symbol: never empty.
func (s *symtab) isName(sym string) string {
	if sym == "" {
		return ""
	}
	for {
		v := s.str(sym)
		if v != "" {
			return v
		}
		delete(s.text, sym)
	}
}

// isSelect reports FROM, selectors and conditions of a SELECT.
func (s *symtab) isSelect(sel sql.Select) (cs []any, join string) {
	from := sel.From()
	if len(from) != 1 || from[0].FullTableName() != "information_schema.COLUMNS" && !strings.EqualFold(from[0].FullTableName(), "information_schema.columns") {
		return []any{}, "!FROM " + fmt.Sprint(from)
	}
	if !system.IsSchemaColumsQuery(sel) {
		return []any{}, "!not a schema columns query"
	}
	if len(sel.Selectors()) != 1 || sel.Selectors()[0].Name() != "*" {
		return []any{}, "!selectors"
	}
	cs = []any{}
	if !sel.Where().HasConditions() {
		return cs, ""
	}
	cmp := func(e query.Expr) []any {
		c, ok := e.(*query.CmpExpr)
		if !ok || c.Operator() != query.EQ {
			return []any{"!" + fmt.Sprint(e), ""}
		}
		v, _ := c.Right().Value().(string)
		return []any{strings.ToUpper(c.Left().Name()), lookup(s.strs, v)}
	}
	switch e := sel.Where().Expr().(type) {
	case *query.AndExpr:
		return append(cs, cmp(e.Left()), cmp(e.Right())), "and"
	case *query.OrExpr:
		return append(cs, cmp(e.Left()), cmp(e.Right())), "or"
	default:
		return append(cs, cmp(e)), ""
	}
}

func runInfoSchema(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID   int    `json:"id"`
		Ops  []isOp `json:"ops"`
		Syms obj    `json:"syms"`
	}
	must(json.Unmarshal(line, &v))
	s := newSymtab(seed*524287 + int64(v.ID))
	for sym, t := range v.Syms {
		s.fix(sym, t.(string))
	}
	res, texts := []any{}, []string{}
	symOf := func(t string) string {
		if t == "" {
			return ""
		}
		return lookup(s.strs, t)
	}
	pan := guarded(func() {
		var cur system.SchemaColumnsStatement
		var rs system.ResultSet
		var sc system.SchemaColumnsResultSet
		var ss []query.Schema
		for _, o := range v.Ops {
			r := obj{"ok": false, "db": "", "ts": []any{}, "cs": []any{}, "join": "", "rs": []any{}, "at": 0}
			res = append(res, r)
			report := func(st system.SchemaColumnsStatement, err error) {
				if err != nil {
					texts = append(texts, "error: "+err.Error())
					return
				}
				cur = st
				r["ok"] = true
				r["db"] = symOf(st.DatabaseName())
				ts := []any{}
				for _, t := range st.TableNames() {
					ts = append(ts, symOf(t))
				}
				r["ts"] = ts
				r["cs"], r["join"] = s.isSelect(st.Statement())
			}
			cols := func(cs []system.SchemaColumn) []any {
				out := []any{}
				for _, c := range cs {
					t := symOf(c.Table())
					if c.Catalog() != "def" || c.Schema() != "information_schema" {
						t = "!catalog " + c.Catalog() + " schema " + c.Schema()
					}
					out = append(out, obj{"t": t, "n": scBack(c.Name()), "ty": c.DataType().String()})
				}
				return out
			}
			switch o.Op {
			case "build":
				opts := []system.SchemaColumnsStatementOption{}
				if o.DB != "" {
					opts = append(opts, system.WithSchemaColumnsStatementDatabaseName(s.isName(o.DB)))
				}
				if len(o.Ts) > 0 {
					ts := []string{}
					for _, t := range o.Ts {
						ts = append(ts, s.isName(t))
					}
					opts = append(opts, system.WithSchemaColumnsStatementTableNames(ts))
				}
				report(system.NewSchemaColumnsStatement(opts...))
			case "reread":
				report(system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(cur.Statement())))
			case "reparse":
				text := cur.Statement().String()
				texts = append(texts, text)
				report(system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(parseOne(text).(sql.Select))))
			case "write":
				conds := []string{}
				for _, c := range o.Cs {
					conds = append(conds, caseOf(c[0], o.Case)+" "+o.Cmp+" '"+strings.ReplaceAll(s.isName(c[1]), "'", "''")+"'")
				}
				text := "SELECT * FROM " + caseOf("INFORMATION_SCHEMA", (o.Case+1)%3) + "." + caseOf("COLUMNS", o.Case) + " WHERE " + strings.Join(conds, " "+caseOf(strings.ToUpper(o.Join), o.Case)+" ")
				texts = append(texts, text)
				report(system.NewSchemaColumnsStatement(system.WithSchemaColumnsStatementSelect(parseOne(text).(sql.Select))))
			case "names":
				ts := []string{}
				for _, t := range o.Ts {
					ts = append(ts, s.isName(t))
				}
				sel, err := system.NewSchemaColumnsQueryFromTableNames(ts)
				if err != nil {
					texts = append(texts, "error: "+err.Error())
					break
				}
				r["ok"] = true
				r["cs"], r["join"] = s.isSelect(sel)
			case "isq":
				a, b := caseOf("INFORMATION_SCHEMA", o.Case), caseOf("COLUMNS", (o.Case+1)%3)
				text := map[string]string{"columns": a + "." + b, "tables": a + ".TABLES", "plain": b, "other": "sales." + b, "two": a + "." + b + ", other", "longer": a + "." + b + "2"}[o.Tab]
				r["ok"] = system.IsSchemaColumsQuery(parseOne("SELECT * FROM " + text).(sql.Select))
			case "schemas":
				ss = nil
				for _, sch := range o.Ss {
					cs := query.NewColumns()
					for _, c := range sch.Cols {
						cs = append(cs, query.NewColumnWithOptions(query.WithColumnName(c.N.text()), query.WithColumnData(scDef(c.Ty))))
					}
					ss = append(ss, query.NewSchemaWith(s.isName(sch.T), query.WithSchemaColumns(cs)))
				}
				var err error
				rs, err = system.NewSchemaColumnsResultSetFromSchemas(ss)
				must(err)
				out := []any{}
				for rs.Next() {
					row, err := rs.Row()
					if err != nil {
						panic(err)
					}
					vals := row.Values()
					f := func(n string) string {
						x, err := row.ValueBy(n)
						if err != nil {
							return "!" + err.Error()
						}
						t, ok := x.(string)
						if !ok {
							return fmt.Sprintf("!%T", x)
						}
						return t
					}
					t := symOf(f("TABLE_NAME"))
					if f("TABLE_CATALOG") != "def" || f("TABLE_SCHEMA") != "information_schema" {
						t = "!catalog " + f("TABLE_CATALOG") + " schema " + f("TABLE_SCHEMA")
					}
					if len(vals) != 5 || vals[2] != f("TABLE_NAME") || vals[3] != f("COLUMN_NAME") || vals[4] != f("DATA_TYPE") {
						t = "!values " + fmt.Sprint(vals)
					}
					out = append(out, obj{"t": t, "n": scBack(f("COLUMN_NAME")), "ty": f("DATA_TYPE")})
				}
				r["ok"], r["rs"] = true, out
				sc = nil
			case "back", "lookup":
				if sc == nil {
					rs, err := system.NewSchemaColumnsResultSetFromSchemas(ss)
					must(err)
					x, err := system.NewSchemaColumnsResultSetFromResultSet(rs)
					if err != nil {
						texts = append(texts, "error: "+err.Error())
						break
					}
					sc = x
				}
				if o.Op == "back" {
					r["ok"], r["rs"] = true, cols(sc.Columns())
					break
				}
				c, err := sc.LookupColumn(o.N.text())
				if err != nil {
					if !errors.Is(err, system.ErrNotFound) {
						panic("lookup error: " + err.Error())
					}
					break
				}
				r["ok"] = true
				for i, x := range sc.Columns() {
					if x == c {
						r["at"] = i + 1
					}
				}
			}
		}
	})
	emit(obj{"id": v.ID, "ops": v.Ops, "res": res, "panic": pan, "_text": strings.Join(texts, "; ")})
}
