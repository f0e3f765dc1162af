package props

import (
	"context"
	"encoding/json"
	"reflect"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
)

// len() of Go values of every kind.

type lenCase struct {
	Kind string
	Elem int // type of the elements
	N    int
	Pos  int // where the value stands
}

type (
	lenNamedSlice []int
	lenNamedMap   map[string]int
	lenNamedStr   string
	lenStruct     struct{ A, B int }
)

var lenElems = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(uint8(0)), reflect.TypeOf(1.5), reflect.TypeOf([]int{}),
	reflect.TypeOf(lenStruct{}), reflect.TypeOf(&lenStruct{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(false),
}

var lenKinds = []string{"slice", "array", "map", "string", "named slice", "named map", "named string", "dict", "nil slice", "nil map", "nil",
	"int", "float", "bool", "struct"}

var lenPrograms = []string{
	"SELECT len(list=x) AS n FROM scope()",
	"SELECT len(list=d.x) AS n FROM scope()",
	"SELECT len(list=l[1]) AS n FROM scope()",
	"SELECT len(list=y) AS n FROM foreach(row={SELECT x AS y FROM scope()}) WHERE len(list=y) = len(list=x)",
	"LET f(v) = len(list=v) SELECT f(v=x) AS n FROM scope()",
	"LET s = SELECT x AS z FROM scope() SELECT len(list=if(condition=TRUE, then=z)) AS n FROM s",
}

func (c *lenCase) real() (interface{}, int) {
	t := lenElems[c.Elem]
	switch c.Kind {
	case "slice":
		return reflect.MakeSlice(reflect.SliceOf(t), c.N, c.N+2).Interface(), c.N
	case "array":
		return reflect.New(reflect.ArrayOf(c.N, t)).Elem().Interface(), c.N
	case "map":
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(0), t))
		for i := 0; i < c.N; i++ {
			m.SetMapIndex(reflect.ValueOf(i), reflect.Zero(t))
		}
		return m.Interface(), c.N
	case "string":
		return string(make([]byte, c.N)), c.N
	case "named slice":
		return make(lenNamedSlice, c.N), c.N
	case "named map":
		m := lenNamedMap{}
		for i := 0; i < c.N; i++ {
			m["k"+itoa(i)] = i
		}
		return m, c.N
	case "named string":
		return lenNamedStr(make([]byte, c.N)), c.N
	case "dict":
		d := ordereddict.NewDict()
		for i := 0; i < c.N; i++ {
			d.Set("k"+itoa(i), i)
		}
		return d, c.N
	case "nil slice":
		return reflect.Zero(reflect.SliceOf(t)).Interface(), 0
	case "nil map":
		return reflect.Zero(reflect.MapOf(reflect.TypeOf(""), t)).Interface(), 0
	case "nil":
		return nil, 0
	case "int":
		return c.N, 0
	case "float":
		return float64(c.N), 0
	case "bool":
		return c.N > 0, 0
	}
	return lenStruct{A: c.N}, 0
}

func genLen(g *G) *lenCase {
	return &lenCase{Kind: g.pick(lenKinds...), Elem: g.n(0, len(lenElems)-1), N: g.n(0, 12), Pos: g.n(0, len(lenPrograms)-1)}
}

func checkLen(r *R, c *lenCase) {
	v, want := c.real()
	rows := 0
	msg := inBubble(r.T, func() {
		scope := vfilter.NewScope().AppendVars(ordereddict.NewDict().Set("x", v).
			Set("d", ordereddict.NewDict().Set("x", v)).Set("l", []interface{}{"other", v}))
		defer scope.Close()
		vqls, err := vfilter.MultiParse(lenPrograms[c.Pos])
		if err != nil {
			panic(err)
		}
		for _, vql := range vqls {
			for row := range vql.Eval(context.Background(), scope) {
				rows++
				b, _ := json.Marshal(row)
				if string(b) != `{"n":`+itoa(want)+`}` {
					panic(failure{"len of a " + c.Kind + " of " + itoa(c.N) + " " + lenElems[c.Elem].String() + " in\n" + lenPrograms[c.Pos] +
						"\ngives " + string(b) + ", expected " + itoa(want)})
				}
			}
		}
	})
	if msg != "" {
		r.Failf("%s", msg)
	}
	if rows != 1 {
		r.Failf("%d rows from %s over a %s", rows, lenPrograms[c.Pos], c.Kind)
	}
	r.Class(c.Kind)
	r.NonTrivialIf(want > 0)
}
