package props

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter/protocols"
	"www.velocidex.com/golang/vfilter/types"
)

// V is a value of the reference model: nil, bool, int64, float64, string,
// []V, *Obj, or (never in results) *SQ and *Mat.
type V = interface{}

// Obj is an ordered mapping. Setting an existing key moves it to the end.
type Obj struct {
	Keys []string
	Vals map[string]V
}

func newObj() *Obj { return &Obj{Vals: map[string]V{}} }

func (o *Obj) Set(k string, v V) *Obj {
	if _, ok := o.Vals[k]; ok {
		for i, x := range o.Keys {
			if x == k {
				o.Keys = append(append([]string{}, o.Keys[:i]...), o.Keys[i+1:]...)
				break
			}
		}
	}
	o.Keys = append(o.Keys, k)
	o.Vals[k] = v
	return o
}

func (o *Obj) Get(k string) (V, bool) {
	v, ok := o.Vals[k]
	return v, ok
}

// Val is the JSON form of a value in a case.
type Val struct {
	K    string   // nil bool int float str list obj
	I    int64    `json:",omitempty"`
	F    string   `json:",omitempty"`
	S    []byte   `json:",omitempty"`
	L    []*Val   `json:",omitempty"`
	Keys []string `json:",omitempty"`
	Go   string   `json:",omitempty"` // the Go type, where it is not the usual one
}

func vInt(i int64) *Val     { return &Val{K: "int", I: i} }
func vFloat(f float64) *Val { return &Val{K: "float", F: strconv.FormatFloat(f, 'g', -1, 64)} }
func vStr(s string) *Val    { return &Val{K: "str", S: []byte(s)} }
func vNil() *Val            { return &Val{K: "nil"} }
func vBool(b bool) *Val {
	r := &Val{K: "bool"}
	if b {
		r.I = 1
	}
	return r
}

// Model returns the model value.
func (v *Val) Model() V {
	switch v.K {
	case "host":
		switch v.Go {
		case "D0", "B0":
			return nil
		case "DV":
			return Host{"D", v.I}
		}
		return Host{v.Go, v.I}
	case "bool":
		return v.I != 0
	case "int":
		return v.I
	case "float":
		f, _ := strconv.ParseFloat(v.F, 64)
		return f
	case "str":
		return string(v.S)
	case "list":
		r := []V{}
		for _, x := range v.L {
			r = append(r, x.Model())
		}
		return r
	case "obj":
		o := newObj()
		for i, k := range v.Keys {
			o.Set(k, v.L[i].Model())
		}
		return o
	}
	return nil
}

// Real returns the value handed to the code under test.
func (v *Val) Real() types.Any {
	if v.K == "host" {
		return Host{v.Go, v.I}.real()
	}
	if v.Go != "" {
		return goReal(v)
	}
	switch v.K {
	case "list":
		r := []types.Any{}
		for _, x := range v.L {
			r = append(r, x.Real())
		}
		return r
	case "obj":
		o := ordereddict.NewDict()
		for i, k := range v.Keys {
			o.Set(k, v.L[i].Real())
		}
		return o
	case "nil":
		return types.Null{}
	case "gnil":
		return nil
	}
	return v.Model()
}

// canon converts a value of the code under test to a model value. All
// integer types are one type and all the forms of NULL are nil.
func canon(x interface{}) V {
	switch t := x.(type) {
	case nil, types.Null, *types.Null:
		return nil
	case bool:
		return t
	case string:
		return t
	case float64:
		return t
	case float32:
		return float64(t)
	case time.Time:
		return "time:" + t.UTC().Format(time.RFC3339Nano)
	case *time.Time:
		if t == nil {
			return nil
		}
		return canon(*t)
	case *ordereddict.Dict:
		if t == nil {
			return nil
		}
		o := newObj()
		for _, k := range t.Keys() {
			v, _ := t.Get(k)
			o.Keys = append(o.Keys, k)
			o.Vals[k] = canon(v)
		}
		return o
	case types.Materializer:
		// A materialized query is the list of its rows.
		return canon(t.Materialize(context.Background(), nil))
	case *protocols.LazyFunctionWrapper:
		return canon(t.Reduce(context.Background()))
	case types.LazyExpr:
		return []V{"UNREDUCED-LAZY", canon(t.Reduce(context.Background()))}
	case types.StoredQuery:
		return fmt.Sprintf("STORED-QUERY %T", x)
	case types.FunctionInterface:
		return "FUNCTION"
	}
	if h, ok := asHost(x); ok {
		return h
	}
	rv := reflect.ValueOf(x)
	if rv.Kind() == reflect.Ptr && rv.IsNil() {
		return nil
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(rv.Uint())
	case reflect.Slice, reflect.Array:
		r := []V{}
		for i := 0; i < rv.Len(); i++ {
			r = append(r, canon(rv.Index(i).Interface()))
		}
		return r
	case reflect.Map:
		o := newObj()
		keys := []string{}
		for _, k := range rv.MapKeys() {
			keys = append(keys, fmt.Sprint(k.Interface()))
		}
		sort.Strings(keys)
		for _, k := range rv.MapKeys() {
			o.Vals[fmt.Sprint(k.Interface())] = canon(rv.MapIndex(k).Interface())
		}
		o.Keys = keys
		return o
	}
	return fmt.Sprintf("OTHER %T", x)
}

// same compares two model values, including the order of dict keys.
func same(a, b V) bool {
	switch t := a.(type) {
	case nil:
		return b == nil
	case []V:
		u, ok := b.([]V)
		if !ok || len(t) != len(u) {
			return false
		}
		for i := range t {
			if !same(t[i], u[i]) {
				return false
			}
		}
		return true
	case *Obj:
		u, ok := b.(*Obj)
		if !ok || len(t.Keys) != len(u.Keys) {
			return false
		}
		for i, k := range t.Keys {
			if u.Keys[i] != k || !same(t.Vals[k], u.Vals[k]) {
				return false
			}
		}
		return true
	case float64:
		u, ok := b.(float64)
		return ok && (t == u || (math.IsNaN(t) && math.IsNaN(u)))
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return a == b
}

// show renders a model value unambiguously.
func show(v V) string {
	switch t := v.(type) {
	case nil:
		return "NULL"
	case string:
		return strconv.Quote(t)
	case int64:
		return strconv.FormatInt(t, 10)
	case float64:
		s := strconv.FormatFloat(t, 'g', -1, 64)
		if !strings.ContainsAny(s, ".eIN") {
			s += ".0"
		}
		return s
	case bool:
		return strconv.FormatBool(t)
	case []V:
		parts := []string{}
		for _, x := range t {
			parts = append(parts, show(x))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case *Obj:
		parts := []string{}
		for _, k := range t.Keys {
			parts = append(parts, strconv.Quote(k)+": "+show(t.Vals[k]))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case Host:
		return t.T + strconv.FormatInt(t.N, 10)
	}
	return fmt.Sprintf("<%T>", v)
}

func showRows(rows []V) string {
	parts := []string{}
	for i, r := range rows {
		if i > 40 {
			parts = append(parts, fmt.Sprintf("... %d rows", len(rows)))
			break
		}
		parts = append(parts, "  "+show(r))
	}
	return strings.Join(parts, "\n")
}

func sameRows(a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameMultiset(a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := []string{}, []string{}
	for i := range a {
		x = append(x, show(a[i]))
		y = append(y, show(b[i]))
	}
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func jsonString(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return err.Error()
	}
	return string(b)
}
