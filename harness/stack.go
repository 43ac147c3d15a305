package main

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/cybergarage/go-sqlparser/sql/util"
)

func init() { register("stack", runStack) }

type stackObj struct{ n int }

// stackValue turns a symbol into an object of its kind and stackName back.
func stackValue(v string) any {
	n, _ := strconv.Atoi(v[1:])
	switch v[0] {
	case 'i':
		return n
	case 's':
		return v
	case 'b':
		return []int{n}
	case 'm':
		return map[string]int{"n": n}
	case 'p':
		return &stackObj{n}
	case 't':
		return stackObj{n}
	case 'f':
		return func() int { return n }
	case 'z':
		return [...]any{0, "", false, 0.0, stackObj{}, error(nil)}[n%5]
	}
	return nil
}

func stackName(o any) string {
	switch x := o.(type) {
	case nil:
		return "nil"
	case int:
		if x == 0 {
			return "z0"
		}
		return fmt.Sprintf("i%d", x)
	case string:
		if x == "" {
			return "z1"
		}
		return x
	case bool:
		return "z2"
	case float64:
		return "z3"
	case []int:
		return fmt.Sprintf("b%d", x[0])
	case map[string]int:
		return fmt.Sprintf("m%d", x["n"])
	case *stackObj:
		return fmt.Sprintf("p%d", x.n)
	case stackObj:
		if x.n == 0 {
			return "z4"
		}
		return fmt.Sprintf("t%d", x.n)
	case func() int:
		return fmt.Sprintf("f%d", x())
	}
	return fmt.Sprintf("!%T", o)
}

func runStack(seed int64, line []byte, emit func(any)) {
	var v struct {
		ID  int `json:"id"`
		Ops []struct {
			Op string `json:"op"`
			V  string `json:"v"`
			N  int    `json:"n"`
		} `json:"ops"`
	}
	must(json.Unmarshal(line, &v))
	res := []any{}
	pan := guarded(func() {
		s := util.NewStack()
		for _, o := range v.Ops {
			r := []string{}
			switch o.Op {
			case "push":
				s.PushObject(stackValue(o.V))
			case "pushn":
				for i := 1; i <= o.N; i++ {
					s.PushObject(i)
				}
			case "pop":
				r = append(r, stackName(s.PopObject()))
			case "popn":
				for i := 1; i <= o.N; i++ {
					r = append(r, stackName(s.PopObject()))
				}
			case "peek":
				r = append(r, stackName(s.PeekObject()))
			}
			res = append(res, obj{"r": r, "size": s.Size()})
		}
	})
	emit(obj{"id": v.ID, "ops": v.Ops, "res": res, "panic": pan})
}
