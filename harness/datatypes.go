package main

import (
	"encoding/json"
	"errors"
	"math/rand"
	"time"

	"github.com/cybergarage/go-sqlparser/sql/query"
)

func init() { register("datatypes", runDataTypes) }

var dtConsts = []struct {
	n string
	t query.DataType
}{
	{"BigIntType", query.BigIntType},
	{"BinaryType", query.BinaryType},
	{"BitType", query.BitType},
	{"BlobType", query.BlobType},
	{"BooleanType", query.BooleanType},
	{"CharType", query.CharType},
	{"CharacterType", query.CharacterType},
	{"ClobType", query.ClobType},
	{"DateType", query.DateType},
	{"DateTimeType", query.DateTimeType},
	{"DecimalType", query.DecimalType},
	{"DoubleType", query.DoubleType},
	{"DoublePrecisionType", query.DoublePrecisionType},
	{"FloatType", query.FloatType},
	{"IntType", query.IntType},
	{"IntegerType", query.IntegerType},
	{"LongBlobType", query.LongBlobType},
	{"LongTextType", query.LongTextType},
	{"MediumBlobType", query.MediumBlobType},
	{"MediumIntType", query.MediumIntType},
	{"MediumTextType", query.MediumTextType},
	{"NumericType", query.NumericType},
	{"RealType", query.RealType},
	{"SetType", query.SetType},
	{"SmallIntType", query.SmallIntType},
	{"TextType", query.TextType},
	{"TimeType", query.TimeType},
	{"TimeStampType", query.TimeStampType},
	{"TinyBlobType", query.TinyBlobType},
	{"TinyIntType", query.TinyIntType},
	{"TinyTextType", query.TinyTextType},
	{"VarBinaryType", query.VarBinaryType},
	{"VarCharType", query.VarCharType},
	{"VarCharacterType", query.VarCharacterType},
	{"YearType", query.YearType},
	{"SerialType", query.SerialType},
	{"BigSerialType", query.BigSerialType},
	{"SmallSerialType", query.SmallSerialType},
	{"NameType", query.NameType},
}

// dtName returns the constant of a type; failures are "error", other results are reported as they are.
func dtName(t query.DataType, err error) string {
	if err != nil {
		if !errors.Is(err, query.ErrInvalid) || t != query.UnknownData {
			return "error of another kind"
		}
		return "error"
	}
	for _, c := range dtConsts {
		if c.t == t {
			return c.n
		}
	}
	return "unknown"
}

func runDataTypes(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID   int    `json:"id"`
		Kind string `json:"kind"`
		Name string `json:"name"`
	}
	must(json.Unmarshal(line, &v))
	rng := rand.New(rand.NewSource(seed*65537 + int64(v.ID)))
	got := []string{}
	add := func(t query.DataType, err error) { got = append(got, dtName(t, err)) }
	pan := guarded(func() {
		switch v.Kind {
		case "name":
			add(query.NewDataTypeFromString(v.Name))
			add(query.NewDataTypeFrom(v.Name))
			add(query.NewDataTypeFrom([]byte(v.Name)))
			d, err := query.NewDataDefFrom(v.Name, rng.Intn(100))
			t := query.UnknownData
			if err == nil {
				t = d.DataType()
			}
			add(t, err)
		case "type":
			for _, c := range dtConsts {
				if c.n == v.Name {
					got = append(got, c.t.String())
				}
			}
		case "all":
			for i := 0; i < 256; i++ {
				got = append(got, query.DataType(i).String())
			}
		case "value":
			n := rng.Intn(100) - 50
			now := time.Now()
			x := map[string]any{"int8": int8(n), "uint8": uint8(n), "int16": int16(n), "uint16": uint16(n), "int32": int32(n), "uint32": uint32(n),
				"int64": int64(n), "uint64": uint64(n), "int": n, "uint": uint(n), "float32": float32(n), "float64": float64(n), "bool": n > 0,
				"string": "x", "bytes": []byte("x"), "time": now, "timeptr": &now, "nil": nil, "struct": struct{}{}, "map": map[string]any{},
				"slice": []int{1}, "func": func() {}, "complex": complex(1, 2), "intptr": &n}
			add(query.NewDataTypeForValue(x[v.Name]))
		case "func":
			text := caseOf(v.Name, rng.Intn(3)) + "(a)"
			switch v.Name {
			case "+", "-", "*", "/", "%":
				fx, ok := parseOne("UPDATE t SET a = a " + v.Name + " 1").(query.Update).Columns()[0].Function()
				if !ok {
					panic("no function: " + v.Name)
				}
				add(query.NewDataTypeForFunction(fx))
				add(query.NewDataTypeFrom(fx))
				return
			}
			fx, ok := parseOne("SELECT " + text + " FROM t").(query.Select).Selectors()[0].Function()
			if !ok {
				panic("no function: " + text)
			}
			add(query.NewDataTypeForFunction(fx))
			add(query.NewDataTypeFrom(fx))
		}
	})
	emit(obj{"id": v.ID, "kind": v.Kind, "name": v.Name, "got": got, "panic": pan})
}
