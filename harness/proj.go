package main

import (
	"fmt"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

// project translates a parsed statement to the statement record of
// SqlSyntax.tla, using only what the statement reports through its API.
func (s *symtab) project(stmt query.Statement) obj {
	k := stmt.StatementType().String()
	switch st := stmt.(type) {
	case query.Select:
		if k != "SELECT" {
			break
		}
		sels := []any{}
		for _, sel := range st.Selectors() {
			sels = append(sels, s.selector(sel))
		}
		orders := []any{}
		for _, o := range st.OrderBy().Orders() {
			d := "?"
			switch {
			case o.IsAsc() && !o.IsDesc() && !o.IsNone() && o.Type() == query.OrderAsc:
				d = "ASC"
			case o.IsDesc() && !o.IsAsc() && !o.IsNone() && o.Type() == query.OrderDesc:
				d = "DESC"
			}
			orders = append(orders, obj{"oc": s.name(o.ColumnName()), "d": d})
		}
		return obj{"k": k, "sel": sels, "from": s.tables(st.From()), "w": s.where(st.Where()),
			"g": s.name(st.GroupBy().ColumnName()), "o": orders,
			"lim": s.count(st.Limit().Limit()), "off": s.count(st.Limit().Offset())}
	case query.Insert:
		if k != "INSERT" {
			break
		}
		rows := []any{}
		for _, cols := range st.Values() {
			row := []any{}
			for _, c := range cols {
				row = append(row, obj{"c": s.name(c.Name()), "v": s.value(c.Value(), c.ValueType())})
			}
			rows = append(rows, row)
		}
		return obj{"k": k, "tb": s.tableOf(st), "rows": rows}
	case query.Update:
		if k != "UPDATE" {
			break
		}
		set := []any{}
		for _, c := range st.Columns() {
			e := []any{}
			if f, ok := c.Function(); ok {
				ex, err := f.Executor()
				op := "!no executor"
				if err == nil {
					op = ex.Name()
				}
				for n, a := range c.Arguments() {
					e = append(e, s.name(a.Name()))
					if n == 0 {
						e = append(e, op)
					}
				}
			} else {
				e = append(e, s.value(c.Value(), c.ValueType()))
			}
			set = append(set, obj{"c": s.name(c.Name()), "e": e})
		}
		return obj{"k": k, "tb": s.tableOf(st), "set": set, "w": s.where(st.Where())}
	case query.AlterTable:
		if k != "ALTER TABLE" {
			break
		}
		acts := []string{}
		ic := []any{}
		cols := []any{}
		idx := []any{}
		if t, ok := st.RenameTo(); ok {
			acts = append(acts, "RENAME TO")
			ic = append(ic, s.name(t.FullTableName()))
		}
		if f, t, ok := st.RenameColumns(); ok {
			acts = append(acts, "RENAME")
			ic = append(ic, s.name(f.Name()), s.name(t.Name()))
		}
		if c, ok := st.AddColumn(); ok {
			acts = append(acts, "ADD")
			cols = append(cols, s.coldef(c))
		}
		if i, ok := st.AddIndex(); ok {
			acts = append(acts, "ADD INDEX")
			idx = append(idx, s.index(i))
		}
		if c, ok := st.DropColumn(); ok {
			acts = append(acts, "DROP")
			ic = append(ic, s.name(c.Name()))
		}
		if i, ok := st.DropIndex(); ok {
			acts = append(acts, "DROP INDEX")
			ic = append(ic, s.name(i.Name()))
		}
		return obj{"k": k, "tb": s.tableOf(st), "act": strings.Join(acts, "+"), "ic": ic, "cols": cols, "idx": idx}
	case query.CreateTable:
		if k != "CREATE TABLE" {
			break
		}
		cols := []any{}
		for _, c := range st.Schema().Columns() {
			cols = append(cols, s.coldef(c))
		}
		idx := []any{}
		for _, i := range st.Schema().Indexes() {
			idx = append(idx, s.index(i))
		}
		return obj{"k": k, "tb": s.table(st.Schema().FullTableName()), "opt": st.IfNotExists(), "cols": cols, "idx": idx}
	case query.CreateIndex:
		if k != "CREATE INDEX" {
			break
		}
		return obj{"k": k, "tb": s.table(st.TableName()), "opt": st.IfNotExists(), "idx": []any{s.index(st.Index())}}
	case query.DropIndex:
		if k != "DROP INDEX" {
			break
		}
		return obj{"k": k, "tb": s.table(st.TableName()), "n": s.name(st.IndexName()), "opt": st.IfExists()}
	case query.CreateDatabase:
		if k != "CREATE DATABASE" {
			break
		}
		return obj{"k": k, "db": s.name(st.DatabaseName()), "opt": st.IfNotExists()}
	case query.DropDatabase:
		if k != "DROP DATABASE" {
			break
		}
		return obj{"k": k, "db": s.name(st.DatabaseName()), "opt": st.IfExists()}
	case query.AlterDatabase:
		if k != "ALTER DATABASE" {
			break
		}
		return obj{"k": k, "db": s.name(st.DatabaseName()), "to": s.name(st.RenameTo().DatabaseName())}
	case query.DropTable:
		if k != "DROP TABLE" {
			break
		}
		return obj{"k": k, "from": s.tables(st.Tables()), "opt": st.IfExists()}
	case query.Truncate:
		if k != "TRUNCATE" {
			break
		}
		return obj{"k": k, "from": s.tables(st.Tables())}
	case query.Vacuum:
		if k == "VACUUM" {
			from := []any{}
			if st.Table() != nil {
				from = append(from, s.table(st.Table().FullTableName()))
			}
			return obj{"k": k, "from": from}
		}
	}
	switch k {
	case "COPY":
		if st, ok := stmt.(query.Copy); ok {
			ic := []any{}
			for _, c := range st.Columns() {
				ic = append(ic, s.name(c.Name()))
			}
			src, fm := "!", "!"
			if x, ok := stmt.(interface{ Source() string }); ok {
				src = x.Source()
				if strings.EqualFold(src, "STDIN") {
					src = "STDIN"
				} else {
					src = lookup(s.strs, src)
				}
			}
			if x, ok := stmt.(interface{ Format() query.CopyFormat }); ok {
				fm = x.Format().String()
			}
			return obj{"k": k, "tb": s.table(st.TableName()), "ic": ic, "src": src, "fmt": fm}
		}
	case "DELETE":
		if st, ok := stmt.(query.Delete); ok {
			return obj{"k": k, "tb": s.tableOf(st), "w": s.where(st.Where())}
		}
	case "USE":
		if st, ok := stmt.(query.Use); ok {
			return obj{"k": k, "db": s.name(st.DatabaseName())}
		}
	case "BEGIN", "COMMIT", "ROLLBACK":
		return obj{"k": k}
	}
	return obj{"k": "!" + k + fmt.Sprintf(" %T", stmt)}
}

func (s *symtab) selector(sel query.Selector) obj {
	if f, ok := sel.Function(); ok {
		a := []any{}
		for _, arg := range sel.Arguments() {
			a = append(a, s.name(arg.Name()))
		}
		n := lookup(s.fns, strings.ToUpper(f.Name()))
		if !sel.IsFunction() {
			n = "!IsFunction is false"
		}
		return obj{"f": "F", "n": n, "a": a}
	}
	n := s.name(sel.Name())
	if sel.IsFunction() {
		n = "!IsFunction is true"
	}
	return obj{"f": "C", "n": n, "a": []any{}}
}

func (s *symtab) table(full string) obj {
	toks := s.lex(full)
	switch {
	case len(toks) == 3 && toks[1] == ".":
		return obj{"s": toks[0], "t": toks[2]}
	case len(toks) <= 1:
		return obj{"s": "", "t": strings.Join(toks, "")}
	}
	return obj{"s": "!", "t": strings.Join(toks, " ")}
}

func (s *symtab) tables(tbls query.TableList) []any {
	l := []any{}
	for _, t := range tbls {
		l = append(l, s.table(t.FullTableName()))
	}
	return l
}

func (s *symtab) tableOf(stmt any) obj {
	name := ""
	switch st := stmt.(type) {
	case interface{ FullTableName() string }:
		name = st.FullTableName()
	case interface{ Table() query.Table }:
		name = st.Table().FullTableName()
	case interface{ TableName() string }:
		name = st.TableName()
	}
	return s.table(name)
}

func (s *symtab) count(n uint) string {
	if n == 0 {
		return ""
	}
	return lookup(s.nums, fmt.Sprintf("%d", n))
}

func (s *symtab) value(v any, t query.LiteralType) string {
	if p, ok := v.(query.BindParam); ok {
		return s.name(p.Name())
	}
	if str, ok := v.(string); ok {
		if t == query.StringLiteral {
			return s.find(s.strs, str)
		}
		return s.name(str)
	}
	if v == nil {
		return "!nil"
	}
	return fmt.Sprintf("!%T", v)
}

func (s *symtab) where(w query.Condition) obj {
	if w == nil || !w.HasConditions() {
		return obj{"c": "none", "p": []any{}}
	}
	cmp := func(e query.Expr) obj {
		c, ok := e.(*query.CmpExpr)
		if !ok || c == nil || c.Left() == nil || c.Right() == nil {
			return obj{"l": "!", "op": fmt.Sprintf("%T", e), "r": "!"}
		}
		op := "?"
		for o, n := range map[query.CmpExprOperator]string{query.EQ: "=", query.NEQ: "!=", query.LT: "<", query.GT: ">", query.LE: "<=", query.GE: ">="} {
			if c.Operator() == o {
				op = n
			}
		}
		return obj{"l": s.name(c.Left().Name()), "op": op, "r": s.value(c.Right().Value(), c.Right().ValueType())}
	}
	switch e := w.Expr().(type) {
	case *query.AndExpr:
		return obj{"c": "and", "p": []any{cmp(e.Left()), cmp(e.Right())}}
	case *query.OrExpr:
		return obj{"c": "or", "p": []any{cmp(e.Left()), cmp(e.Right())}}
	default:
		return obj{"c": "cmp", "p": []any{cmp(e)}}
	}
}

func (s *symtab) coldef(c query.Column) obj {
	sz := ""
	if n := c.DataTypeSize(); n > 0 {
		sz = lookup(s.nums, fmt.Sprintf("%d", n))
	}
	ty := c.DataType().String()
	if ty == "" {
		ty = "!unknown"
	}
	return obj{"n": s.name(c.Name()), "ty": ty, "sz": sz}
}

func (s *symtab) index(i query.Index) obj {
	if i == nil {
		return obj{"ity": "!nil", "n": "", "ic": []any{}}
	}
	ic := []any{}
	for _, c := range i.Columns() {
		ic = append(ic, s.name(c.Name()))
	}
	switch i.Type() {
	case query.PrimaryIndex:
		return obj{"ity": "P", "n": "", "ic": ic}
	case query.SecondaryIndex:
		return obj{"ity": "S", "n": s.name(i.Name()), "ic": ic}
	}
	return obj{"ity": "!", "n": s.name(i.Name()), "ic": ic}
}

// helpers are derived facts the API reports about a statement.
func (s *symtab) helpers(stmt query.Statement) obj {
	h := obj{"names": []any{}, "tabs": []any{}, "star": false, "hasf": false, "hasg": false}
	strs := func(l []string) []any {
		r := []any{}
		for _, n := range l {
			r = append(r, s.name(n))
		}
		return r
	}
	switch st := stmt.(type) {
	case query.Select:
		h["names"] = strs(st.Selectors().Names())
		h["star"] = st.Selectors().IsAsterisk()
		h["hasf"] = st.Selectors().HasFunction()
		h["hasg"] = st.Selectors().HasAggregator() && st.HasAggregator()
		h["tabs"] = strs(st.From().TableNames())
	case query.Insert:
		h["names"] = strs(st.Columns().Names())
		h["tabs"] = []any{lastName(s.name(st.TableName()))}
	case query.DropTable:
		h["tabs"] = strs(st.TableNames())
	case query.Truncate:
		h["tabs"] = strs(st.TableNames())
	case query.CreateTable:
		h["tabs"] = []any{s.name(st.TableName())}
		h["names"] = strs(st.Schema().Columns().Names())
	}
	return h
}

func lastName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}
