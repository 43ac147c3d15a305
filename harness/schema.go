package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("schema", runSchema) }

type scName struct {
	B string `json:"b"`
	C int    `json:"c"`
}

type scOp struct {
	Op  string   `json:"op"`
	S   int      `json:"s"`
	How string   `json:"how"`
	N   scName   `json:"n"`
	T   string   `json:"t"`
	Cs  []scName `json:"cs"`
}

// names: base name -> word
var scWords = map[string]string{"a": "ab", "b": "Abc", "c": "idx_two", "d": "xay", "e": "name_of_column", "f": "zz"}

func (n scName) text() string {
	w := scWords[n.B]
	if n.C == 0 {
		return strings.ToUpper(w)
	}
	return caseOf(w, n.C)
}

func scBack(s string) obj {
	for b := range scWords {
		for c := range 3 {
			if (scName{b, c}).text() == s {
				return obj{"b": b, "c": c}
			}
		}
	}
	return obj{"b": "!" + s, "c": 0}
}

// scType reads a type of the specification such as "VARCHAR(7)".
func scDef(t string) query.ColumnDef {
	base, rest, _ := strings.Cut(t, "(")
	size := -1
	if rest != "" {
		fmt.Sscanf(rest, "%d", &size)
	}
	d, err := query.NewDataDefFrom(base, size)
	if err != nil {
		panic(err)
	}
	return d
}

func scColumns(cs []scName) query.Columns {
	cols := query.NewColumns()
	for _, c := range cs {
		cols = append(cols, query.NewColumnWithName(c.text()))
	}
	return cols
}

func scTexts(cs []scName) string {
	s := []string{}
	for _, c := range cs {
		s = append(s, c.text())
	}
	return strings.Join(s, ", ")
}

type scSnap struct {
	cols query.Columns
	idxs query.Indexes
	sels query.Selectors
}

func (s scSnap) show() obj {
	cols, idxs := []any{}, []any{}
	for i, c := range s.cols {
		t := c.DataType().String()
		if c.DataTypeSize() > 0 {
			t += fmt.Sprintf("(%d)", c.DataTypeSize())
		}
		if i >= len(s.sels) || s.sels[i].Name() != c.Name() {
			t = "!selectors differ"
		}
		cols = append(cols, obj{"n": scBack(c.Name()), "t": t})
	}
	for _, x := range s.idxs {
		cs := []any{}
		for _, c := range x.Columns() {
			cs = append(cs, scBack(c.Name()))
		}
		idxs = append(idxs, obj{"n": scBack(x.Name()), "cs": cs})
	}
	return obj{"cols": cols, "idxs": idxs}
}

func (w *scWorld) alterText(text string) (query.AlterTable, error) {
	w.texts = append(w.texts, text)
	stmt := parseOne(text)
	if a, ok := stmt.(query.AlterTable); ok {
		return a, nil
	}
	return query.NewAlterTableFrom(stmt)
}

type scWorld struct {
	rng   *rand.Rand
	texts []string
}

func (w *scWorld) do(s query.Schema, o scOp) error {
	n := o.N.text()
	var stmt query.AlterTable
	var err error
	switch o.Op + " " + o.How {
	case "addcol direct":
		return s.AddColumn(query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(scDef(o.T))))
	case "addcol alter":
		stmt = query.NewAlterTableWith("t", query.WithAlterTableAddColumn(query.NewColumnWithOptions(query.WithColumnName(n), query.WithColumnData(scDef(o.T)))))
	case "addcol parsed":
		stmt, err = w.alterText(fmt.Sprintf("ALTER TABLE t ADD COLUMN %s %s", n, o.T))
	case "addidx direct":
		return s.AddIndex(query.NewSecondaryIndexWith(n, scColumns(o.Cs)))
	case "addidx alter":
		stmt = query.NewAlterTableWith("t", query.WithAlterTableAddIndex(query.NewSecondaryIndexWith(n, scColumns(o.Cs))))
	case "addidx parsed":
		if w.rng.Intn(2) == 0 {
			stmt, err = w.alterText(fmt.Sprintf("ALTER TABLE t ADD INDEX %s (%s)", n, scTexts(o.Cs)))
		} else {
			stmt, err = w.alterText(fmt.Sprintf("CREATE INDEX %s ON t (%s)", n, scTexts(o.Cs)))
		}
	case "dropcol direct":
		return s.DropColumn(n)
	case "dropcol alter":
		stmt = query.NewAlterTableWith("t", query.WithAlterTableDropColumn(query.NewColumnWithName(n)))
	case "dropcol parsed":
		stmt, err = w.alterText("ALTER TABLE t DROP COLUMN " + n)
	case "dropidx direct":
		return s.DropIndex(n)
	case "dropidx alter":
		stmt = query.NewAlterTableWith("t", query.WithAlterTableDropIndex(query.NewSecondaryIndexWith(n, query.NewColumns())))
	case "dropidx parsed":
		stmt, err = w.alterText("DROP INDEX " + n)
	}
	if err != nil {
		return err
	}
	return s.Alter(stmt)
}

func runSchema(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int    `json:"id"`
		Cfg string `json:"cfg"`
		Ops []scOp `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	w := &scWorld{rng: rand.New(rand.NewSource(seed*31337 + int64(v.ID)))}
	res := []any{}
	pan := guarded(func() {
		schemas := []query.Schema{query.NewSchemaWith("t")}
		snaps := [][]scSnap{}
		for _, o := range v.Ops {
			s := schemas[o.S-1]
			var err error
			at := 0
			switch o.Op {
			case "lookcol":
				c, e := s.LookupColumn(o.N.text())
				c2, e2 := s.Columns().LookupColumn(o.N.text())
				k, e3 := s.Columns().LookupIndexOfColumn(o.N.text())
				err = e
				if (e == nil) != (e2 == nil) || (e == nil) != (e3 == nil) || e == nil && (c != c2 || s.Columns()[k] != c) {
					panic("lookups of a column differ")
				}
				if e == nil {
					at = k + 1
				}
			case "lookidx":
				c, e := s.LookupIndex(o.N.text())
				c2, e2 := s.Indexes().LookupIndex(o.N.text())
				k, e3 := s.Indexes().LookupIndexOfIndex(o.N.text())
				err = e
				if (e == nil) != (e2 == nil) || (e == nil) != (e3 == nil) || e == nil && (c != c2 || s.Indexes()[k] != c) {
					panic("lookups of an index differ")
				}
				if e == nil {
					at = k + 1
				}
			case "fork":
				schemas = append(schemas, query.NewSchemaWith("t", query.WithSchemaColumns(s.Columns()), query.WithSchemaIndexes(s.Indexes())))
			case "list":
			default:
				err = w.do(s, o)
			}
			all, snap := []any{}, []scSnap{}
			for _, s := range schemas {
				x := scSnap{s.Columns(), s.Indexes(), s.Selectors()}
				snap = append(snap, x)
				all = append(all, x.show())
			}
			snaps = append(snaps, snap)
			res = append(res, obj{"ok": err == nil, "at": at, "all": all})
		}
		for i, snap := range snaps {
			later := []any{}
			for _, x := range snap {
				later = append(later, x.show())
			}
			res[i].(obj)["later"] = later
		}
	})
	emit(obj{"id": v.ID, "ops": v.Ops, "res": res, "panic": pan, "_text": strings.Join(w.texts, "; ")})
}
