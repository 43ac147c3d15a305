package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql"
	sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"
	"github.com/cybergarage/go-sqlparser/sql/fn"
	"github.com/cybergarage/go-sqlparser/sql/net"
	"github.com/cybergarage/go-sqlparser/sql/parser"
	"github.com/cybergarage/go-sqlparser/sql/query"
	"github.com/cybergarage/go-sqlparser/sql/query/response/resultset"
	"github.com/cybergarage/go-sqlparser/sql/stmt"
	"github.com/cybergarage/go-sqlparser/sql/system"
)

func init() { register("errs", runErrs) }

var sentinels = []struct {
	name string
	err  error
}{
	{"errors.NotImplemented", sqlerrors.ErrNotImplemented}, {"errors.NotSupported", sqlerrors.ErrNotSupported},
	{"errors.NotExist", sqlerrors.ErrNotExist}, {"errors.Exist", sqlerrors.ErrExist}, {"errors.NotEqual", sqlerrors.ErrNotEqual},
	{"errors.Invalid", sqlerrors.ErrInvalid}, {"errors.NotFound", sqlerrors.ErrNotFound}, {"errors.NoRows", sqlerrors.ErrNoRows},
	{"query.Invalid", query.ErrInvalid}, {"query.NotFound", query.ErrNotFound}, {"query.NotSupported", query.ErrNotSupported}, {"query.NotSet", query.ErrNotSet},
	{"fn.Invalid", fn.ErrInvalid}, {"fn.NotFound", fn.ErrNotFound}, {"fn.NoData", fn.ErrNoData}, {"fn.NotSupported", fn.ErrNotSupported},
	{"fn.NotImplemented", fn.ErrNotImplemented}, {"fn.NegativeValue", fn.ErrNegativeValue},
	{"net.Exist", net.ErrExist}, {"net.NotExist", net.ErrNotExist},
	{"stmt.Invalid", stmt.ErrInvalid}, {"stmt.NotFound", stmt.ErrNotFound},
	{"system.Invalid", system.ErrInvalid}, {"system.NotFound", system.ErrNotFound},
	{"parser.EmptyQuery", parser.ErrEmptyQuery},
}

var errSubjects = map[string]string{"plain": "abc", "word": "not_exist", "percent": "%s%d%!v(MISSING)%w", "quote": "it's (a) \"b\"", "unicode": "日本 語",
	"space": " x\n\ty ", "long": strings.Repeat("long_", 400), "number": "-42", "upper": "TABLE", "empty": ""}

// errOf makes an error; it returns the text which the message must include.
func errOf(kind, name, subject string, rng *rand.Rand) (error, string) {
	s := errSubjects[subject]
	n := 1 + rng.Intn(1000)
	if kind == "ctor" {
		switch name {
		case "NewErrNotImplemented":
			return sqlerrors.NewErrNotImplemented(s), s
		case "NewErrNotExist":
			return sqlerrors.NewErrNotExist(s), s
		case "NewErrExist":
			return sqlerrors.NewErrExist(s), s
		case "NewErrNotSupported":
			return sqlerrors.NewErrNotSupported(s), s
		case "NewErrDatabaseNotExist":
			return sqlerrors.NewErrDatabaseNotExist(s), s
		case "NewErrTableNotExist":
			return sqlerrors.NewErrTableNotExist(s), s
		case "NewErrDatabaseExist":
			return sqlerrors.NewErrDatabaseExist(s), s
		case "NewErrTableExist":
			return sqlerrors.NewErrTableExist(s), s
		case "NewErrColumnNotExist":
			if rng.Intn(2) == 0 {
				return sqlerrors.NewErrColumnNotExist(n), fmt.Sprint(n)
			}
			return sqlerrors.NewErrColumnNotExist(s), s
		case "NewErrColumnValueNotExist":
			return sqlerrors.NewErrColumnValueNotExist(s), s
		case "NewErrGroupByColumnValueNotFound":
			return sqlerrors.NewErrGroupByColumnValueNotFound(s), s
		case "NewErrColumnsNotEqual":
			return sqlerrors.NewErrColumnsNotEqual(n, n+1), fmt.Sprintf("(%d)", []int{n, n + 1}[rng.Intn(2)])
		case "NewErrPreparedStatementNotExist":
			return sqlerrors.NewErrPreparedStatementNotExist(s), s
		case "NewErrPreparedPortalNotExist":
			return sqlerrors.NewErrPreparedPortalNotExist(s), s
		case "NewErrMultiplePreparedStatementNotSupported":
			return sqlerrors.NewErrMultiplePreparedStatementNotSupported(s), s
		case "NewErrMultipleTableNotSupported":
			return sqlerrors.NewErrMultipleTableNotSupported(s), s
		case "NewErrNoTable":
			return sqlerrors.NewErrNoTable(s), s
		case "query.NewErrStatementInvalid":
			x := parseOne("TRUNCATE TABLE abc")
			return query.NewErrStatementInvalid(x), x.String()
		case "query.NewErrStatementNotSupported":
			x := parseOne("DELETE FROM abc WHERE d = 'it''s'")
			return query.NewErrStatementNotSupported(x), x.String()
		case "fn.NewErrNotSupportedFunction":
			return fn.NewErrNotSupportedFunction(s), s
		}
		panic("unknown constructor " + name)
	}
	schema := parseOne("CREATE TABLE t (a INT, b TEXT)").(query.CreateTable).Schema()
	quoted := "'" + strings.ReplaceAll(s, "'", "''") + "'"
	exec := func(f string, args ...any) error {
		ex, err := fn.NewExecutorForName(f)
		if err != nil {
			panic(err)
		}
		_, err = ex.Execute(args)
		return err
	}
	switch name {
	case "parse empty":
		_, err := sql.NewParser().ParseString("")
		return err, ""
	case "parse unsupported condition":
		_, err := sql.NewParser().ParseString("DELETE FROM t WHERE a IN (" + quoted + ")")
		return err, quoted
	case "parse unsupported value":
		_, err := sql.NewParser().ParseString("UPDATE t SET a = b || " + quoted)
		return err, quoted
	case "add connection":
		m := net.NewConnManager()
		if err := m.AddConn(net.NewConnWith(nil, net.WithConnID(net.ConnID(n)))); err != nil {
			panic(err)
		}
		return m.AddConn(net.NewConnWith(nil, net.WithConnID(net.ConnID(n)))), ""
	case "update connection":
		c := net.NewConnWith(nil)
		return net.NewConnManager().UpdateConn(c, c), ""
	case "update to connection":
		m := net.NewConnManager()
		a, b := net.NewConnWith(nil, net.WithConnID(1)), net.NewConnWith(nil, net.WithConnID(2))
		if m.AddConn(a) != nil || m.AddConn(b) != nil {
			panic("connections are not added")
		}
		return m.UpdateConn(a, b), ""
	case "lookup column":
		_, err := schema.LookupColumn(s)
		return err, s
	case "drop column":
		return schema.DropColumn(s), s
	case "lookup index":
		_, err := schema.LookupIndex(s)
		return err, s
	case "drop index":
		return schema.DropIndex(s), s
	case "column at":
		_, err := schema.Columns().ColumnAt([]int{-1, 2, n + 1}[rng.Intn(3)])
		return err, ""
	case "column position":
		_, err := schema.Columns().LookupIndexOfColumn(s)
		return err, s
	case "set schema":
		l := query.NewColumns()
		l = append(l, query.NewColumnWithOptions(query.WithColumnName(s)))
		return l.SetSchema(schema), s
	case "column value":
		c := parseOne("INSERT INTO t (a) VALUES (3.5)").(query.Insert).Columns()
		return c.SetSchema(schema), "3.5"
	case "data type":
		_, err := query.NewDataTypeFrom(s)
		return err, s
	case "rename":
		return schema.Alter(parseOne("ALTER TABLE t RENAME TO abc").(query.AlterTable)), "abc"
	case "executor":
		_, err := fn.NewExecutorForName(s)
		return err, s
	case "aggregator":
		_, err := fn.NewAggregatorForName(s, fn.WithAggregatorArguments([]string{"a"}))
		return err, s
	case "arguments":
		return exec([]string{"ABS", "UPPER", "SQRT", "MOD"}[rng.Intn(4)], 1, 2, 3), ""
	case "negative":
		return exec([]string{"SQRT", "LOG", "LOG10"}[rng.Intn(3)], -n), ""
	case "zero divisor":
		return exec([]string{"/", "%", "MOD"}[rng.Intn(3)], n, 0), ""
	case "row by name", "row at", "no row", "result column":
		sc := resultset.NewSchema(resultset.WithSchemaColumns([]resultset.Column{resultset.NewColumn(resultset.WithColumnName("a"))}))
		row := resultset.NewRow(resultset.WithRowSchema(sc), resultset.WithRowValues([]any{1}))
		switch name {
		case "row by name":
			_, err := row.ValueBy(s + "x")
			return err, ""
		case "row at":
			_, err := row.ValueAt([]int{-1, 1, n}[rng.Intn(3)])
			return err, ""
		case "result column":
			_, err := sc.LookupColumn(s)
			return err, s
		}
		_, err := resultset.NewResultSet(resultset.WithResultSetSchema(sc)).Row()
		return err, ""
	case "bind":
		_, err := stmt.NewBindStatement(stmt.WithBindStatementQuery("SELECT a FROM t WHERE b = 1"),
			stmt.WithBindStatementParams(stmt.BindParams{stmt.NewBindParam(s)})).Statements()
		return err, ""
	case "system column":
		_, err := system.NewSchemaColumns().LookupColumn(s)
		return err, s
	case "aggregate column", "aggregate value":
		a, err := fn.NewAggregatorForName("SUM", fn.WithAggregatorArguments([]string{"a"}))
		if err != nil {
			panic(err)
		}
		if name == "aggregate value" {
			return a.Aggregate(fn.Row{"x"}), ""
		}
		return a.Aggregate(map[string]any{"b": 1}), "(a)"
	}
	panic("unknown site " + name)
}

func runErrs(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID      int    `json:"id"`
		Kind    string `json:"kind"`
		Name    string `json:"name"`
		Subject string `json:"subject"`
	}
	must(json.Unmarshal(line, &v))
	rng := rand.New(rand.NewSource(seed*65537 + int64(v.ID)))
	o := obj{"id": v.ID, "kind": v.Kind, "name": v.Name, "subject": v.Subject, "text": "", "value": "", "is": []string{}, "names": true, "failed": false}
	o["panic"] = guarded(func() {
		switch v.Kind {
		case "code":
			o["text"] = sqlerrors.Code(v.Name).String()
		case "class":
			o["text"] = sqlerrors.Class(v.Name).String()
		case "const":
			if v.Subject == "code" {
				o["value"], o["text"] = string(stateCodes[v.Name]), stateCodes[v.Name].String()
			} else {
				o["value"], o["text"] = string(stateClasses[v.Name]), stateClasses[v.Name].String()
			}
		default:
			err, part := errOf(v.Kind, v.Name, v.Subject, rng)
			if err == nil {
				return
			}
			if rng.Intn(3) == 0 {
				err = fmt.Errorf("wrapped: %w", err)
			}
			is := []string{}
			for _, s := range sentinels {
				if errors.Is(err, s.err) {
					is = append(is, s.name)
				}
			}
			o["failed"], o["is"], o["text"], o["names"] = true, is, err.Error(), strings.Contains(err.Error(), part)
		}
	})
	emit(o)
}
