package props

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"time"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Values of other Go types with the same content.

func goReal(v *Val) types.Any {
	switch v.Go {
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "uint":
		return uint(v.I)
	case "uint8":
		return uint8(v.I)
	case "uint16":
		return uint16(v.I)
	case "uint32":
		return uint32(v.I)
	case "uint64":
		return uint64(v.I)
	case "float32":
		f, _ := strconv.ParseFloat(v.F, 64)
		return float32(f)
	case "*Null":
		return &types.Null{}
	case "nil":
		return nil
	case "[]int64":
		r := []int64{}
		for _, x := range v.L {
			r = append(r, x.I)
		}
		return r
	case "[]string":
		r := []string{}
		for _, x := range v.L {
			r = append(r, string(x.S))
		}
		return r
	case "[]float64":
		r := []float64{}
		for _, x := range v.L {
			r = append(r, x.Model().(float64))
		}
		return r
	case "[]Dict":
		r := []*ordereddict.Dict{}
		for _, x := range v.L {
			r = append(r, x.Real().(*ordereddict.Dict))
		}
		return r
	case "[]Row":
		r := []vfilter.Row{}
		for _, x := range v.L {
			r = append(r, x.Real())
		}
		return r
	case "array":
		r := reflect.New(reflect.ArrayOf(len(v.L), reflect.TypeOf((*interface{})(nil)).Elem())).Elem()
		for i, x := range v.L {
			if e := x.Real(); e != nil {
				r.Index(i).Set(reflect.ValueOf(e))
			}
		}
		return r.Interface()
	case "lazy":
		c := *v
		c.Go = ""
		return lazyValue{c.Real()}
	}
	panic("harness: unknown type " + v.Go)
}

// lazyValue is what a plugin returns for a value computed on demand.
type lazyValue struct{ v types.Any }

func (self lazyValue) Reduce(ctx context.Context) types.Any { return self.v }
func (self lazyValue) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	return self.v
}

func allK(v *Val, k string) bool {
	for _, x := range v.L {
		if x.K != k || x.Go != "" {
			return false
		}
	}
	return true
}

// goTypes gives the parts of a value random Go types which can hold them.
func (g *G) goTypes(v *Val, used map[string]bool) {
	for _, x := range v.L {
		g.goTypes(x, used)
	}
	if g.chance(30) {
		return
	}
	o := []string{}
	switch v.K {
	case "int":
		o = append(o, "int")
		for i, bits := range []uint{8, 16, 32, 64} {
			if bits < 64 && v.I >= -1<<(bits-1) && v.I < 1<<(bits-1) {
				o = append(o, []string{"int8", "int16", "int32"}[i])
			}
			if v.I >= 0 && (bits == 64 || v.I < 1<<bits) {
				o = append(o, []string{"uint8", "uint16", "uint32", "uint64"}[i])
			}
		}
		if v.I >= 0 {
			o = append(o, "uint")
		}
	case "float":
		f, _ := strconv.ParseFloat(v.F, 64)
		if float64(float32(f)) == f {
			o = append(o, "float32")
		}
	case "nil":
		o = append(o, "*Null", "nil")
	case "list":
		if allK(v, "int") {
			o = append(o, "[]int64")
		}
		if allK(v, "str") {
			o = append(o, "[]string")
		}
		if allK(v, "float") {
			o = append(o, "[]float64")
		}
		if allK(v, "obj") {
			o = append(o, "[]Dict")
		}
		o = append(o, "[]Row", "array")
	}
	if len(o) > 0 {
		v.Go = g.pick(o...)
		used[v.Go] = true
	}
}

type goTypesCase struct {
	Env *Env
	Sts []*St
}

func checkGoTypes(r *R, c *goTypesCase) {
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := 0
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.Go != "" {
			n++
			r.Count(v.Go, 1)
		}
		for _, x := range v.L {
			walk(x)
		}
	}
	for _, v := range c.Env.Vals {
		walk(v)
	}
	r.NonTrivialIf(n > 0 && len(want[len(want)-1]) > 0)
}

func genGoTypes(t *rapid.T) *goTypesCase {
	g := newG(t)
	c := &goTypesCase{Env: g.stdEnv()}
	if g.chance(50) {
		q := &Q{From: fromCall("scope")}
		for i := g.n(1, 4); i > 0; i-- {
			q.Cols = append(q.Cols, cE(g.expr("any", g.n(1, 3)), "c"+itoa(i)))
		}
		c.Sts = []*St{{Q: q}}
	} else {
		group := g.chance(40)
		q, _ := g.query(g.n(0, 1), qopt{nested: g.chance(40), group: group, agg: group, limit: !group})
		c.Sts = []*St{{Q: q}}
	}
	if g.chance(15) {
		// Lists in lists.
		lists := []int{}
		for i, v := range c.Env.Vals {
			if v.K == "list" {
				lists = append(lists, i)
			}
		}
		i := lists[g.n(0, len(lists)-1)]
		v := c.Env.Vals[i]
		for n := g.n(1, 6); n > 0; n-- {
			o := *v
			*v = Val{K: "list", L: []*Val{&o}}
		}
		if c.Sts[0].Q.From.Name == "scope" {
			c.Sts[0].Q.Cols = append(c.Sts[0].Q.Cols, cE(eCall("dict", aE("a", eSym(c.Env.Names[i]))), "deep"))
		}
	}
	used := map[string]bool{}
	for _, v := range c.Env.Vals {
		g.goTypes(v, used)
	}
	return c
}

// Times.

type timeVal struct {
	Kind string // time, *time, int, float
	S    int64
	N    int64
}

func (v timeVal) real() interface{} {
	t := time.Unix(v.S, v.N)
	if v.Kind == "utc" {
		t = t.UTC()
	}
	switch v.Kind {
	case "*time":
		return &t
	case "int":
		return v.S
	case "float":
		return v.float()
	}
	return t
}

func (v timeVal) float() float64 { return float64(v.S) + float64(v.N)/1e9 }

// nanos is the value in nanoseconds. Only fractions that a float represents
// are generated.
func (v timeVal) cmp(o timeVal) int {
	n, m := v.N, o.N
	if v.Kind == "int" {
		n = 0
	}
	if o.Kind == "int" {
		m = 0
	}
	switch {
	case v.S < o.S || (v.S == o.S && n < m):
		return -1
	case v.S == o.S && n == m:
		return 0
	}
	return 1
}

func (v timeVal) isTime() bool { return v.Kind != "int" && v.Kind != "float" }

type timesCase struct{ V []timeVal }

func genTimes(t *rapid.T) *timesCase {
	g := newG(t)
	c := &timesCase{}
	for i := g.n(2, 6); i > 0; i-- {
		v := timeVal{Kind: g.pick("time", "utc", "*time", "time", "int", "float")}
		switch g.n(0, 3) {
		case 0:
			v.S = int64(g.n(0, 3))
		case 1:
			v.S = 1600000000 + int64(g.n(0, 2))
		case 2:
			v.S = int64(g.n(-3, 0))
		default:
			v.S = rapid.SampledFrom([]int64{-62135596800, 253402300799, 1 << 33, -1 << 33, 1<<32 - 1, 10000000000, -62135596800 + 1, -6795364579}).Draw(t, "s")
		}
		if g.chance(60) && v.Kind != "int" {
			v.N = int64(g.n(1, 3)) * 250000000
		}
		if v.isTime() && g.chance(30) {
			v.N += int64(g.n(0, 2))
			if v.S == -6795364579 {
				v.N = 128654848
			}
		}
		c.V = append(c.V, v)
	}
	return c
}

func checkTimes(r *R, c *timesCase) {
	// Every pair, with every comparison.
	env := ordereddict.NewDict()
	text := ""
	type exp struct {
		name, expr string
		want       bool
	}
	exps := []exp{}
	for i, a := range c.V {
		env.Set("v"+itoa(i), a.real())
		for j, b := range c.V {
			if !a.isTime() && !b.isTime() {
				continue
			}
			d := a.cmp(b)
			for _, op := range []string{"<", ">", "=", "!=", "<=", ">="} {
				want := false
				switch op {
				case "<":
					want = d < 0
				case ">":
					want = d > 0
				case "=":
					want = d == 0
				case "!=":
					want = d != 0
				case "<=":
					want = d <= 0
				case ">=":
					want = d >= 0
				}
				e := fmt.Sprintf("v%d %s v%d", i, op, j)
				exps = append(exps, exp{fmt.Sprintf("e%d", len(exps)), e, want})
			}
		}
	}
	text = "SELECT "
	for i, e := range exps {
		if i > 0 {
			text += ", "
		}
		text += e.expr + " AS " + e.name
	}
	text += " FROM scope()"
	order := "SELECT x FROM rows ORDER BY x"
	rows := []interface{}{}
	times := []timeVal{}
	for _, v := range c.V {
		if v.isTime() {
			times = append(times, v)
			rows = append(rows, ordereddict.NewDict().Set("x", v.real()))
		}
	}
	env.Set("rows", rows)
	if len(exps) == 0 {
		return
	}
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		run.Scope.AppendVars(env)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		vql, err := vfilter.Parse(text)
		if err != nil {
			panic(failure{err.Error()})
		}
		got := drain(run, vql)
		if len(got) != 1 {
			panic(failure{"no row"})
		}
		for _, e := range exps {
			if v := got[0].(*Obj).Vals[e.name]; v != V(e.want) {
				panic(failure{fmt.Sprintf("%s is %v, expected %v\n%s", e.expr, show(v), e.want, c.show())})
			}
		}
		vql, _ = vfilter.Parse(order)
		got = drain(run, vql)
		if len(got) != len(times) {
			panic(failure{fmt.Sprintf("ORDER BY gives %d rows of %d", len(got), len(times))})
		}
		last := ""
		for i, x := range got {
			s, _ := x.(*Obj).Vals["x"].(string)
			if i > 0 {
				a, _ := time.Parse("time:"+time.RFC3339Nano, last)
				b, _ := time.Parse("time:"+time.RFC3339Nano, s)
				if b.Before(a) {
					panic(failure{fmt.Sprintf("ORDER BY: %s is after %s\n%s", s, last, c.show())})
				}
			}
			last = s
		}
		run.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, c.show())
	}
	r.NonTrivial()
}

func (c *timesCase) show() string {
	s := ""
	for i, v := range c.V {
		s += fmt.Sprintf("v%d = %s %d.%09d\n", i, v.Kind, v.S, v.N)
	}
	return s
}

// Structs.

type structCase struct {
	A     int64
	B     []byte
	F     float64
	L     []int64
	Nil   bool
	Depth int
	Form  int // value, pointer
}

type goInner struct {
	X     int64 `json:"x_name"`
	hid   int64
	Next  *goInner
	List  []goInner
	Iface interface{}
}

func (self goInner) Twice() int64                    { return self.X * 2 }
func (self *goInner) PtrTwice() int64                { return self.X * 4 }
func (self goInner) WithErr() (int64, error)         { return self.X + 1, fmt.Errorf("ignored") }
func (self goInner) NilPtr() *goInner                { return nil }
func (self goInner) Args(x int64) int64              { return x }
func (self goInner) hidden() int64                   { return 1 }
func (self goInner) MarshalJSON() ([]byte, error)    { return []byte("1"), nil }
func (self goInner) Three() (int64, string, float64) { return 1, "", 1 }

type goOuter struct {
	goEmb
	A      int64
	B      string  `json:"bee,omitempty"`
	F      float64 `yaml:"eff"`
	L      []int64
	Inn    goInner
	P      *goInner
	hidden int
}

type goEmb struct{ Emb int64 }

func checkStructs(r *R, c *structCase) {
	in := goInner{X: c.A, hid: 3, Iface: c.F}
	in.List = []goInner{{X: 1}, {X: 2}}
	o := goOuter{A: c.A, B: string(c.B), F: c.F, L: c.L, Inn: in, hidden: 9}
	o.Emb = c.A + 7
	if !c.Nil {
		cp := in
		o.P = &cp
		for i := 0; i < c.Depth; i++ {
			o.P = &goInner{X: int64(i), Next: o.P}
		}
	}
	env := ordereddict.NewDict()
	if c.Form == 0 {
		env.Set("o", o)
	} else {
		env.Set("o", &o)
	}
	env.Set("os", []goOuter{o, o})
	env.Set("ps", []*goOuter{&o})
	null := V(nil)
	list := []V{}
	for _, x := range c.L {
		list = append(list, x)
	}
	type exp struct {
		e    string
		want V
	}
	exps := []exp{
		{"o.A", c.A}, {"o.B", string(c.B)}, {"o.bee", string(c.B)}, {"o.F", c.F}, {"o.L", V(list)},
		{"o.eff", null}, {"o.hidden", null}, {"o.Nope", null}, {"o.a", null},
		{"o.Emb", c.A + 7},
		{"o.Inn.X", c.A}, {"o.Inn.x_name", c.A}, {"o.Inn.hid", null}, {"o.Inn.Twice", c.A * 2}, {"o.Inn.WithErr", c.A + 1},
		{"o.Inn.NilPtr", null}, {"o.Inn.NilPtr.X", null}, {"o.Inn.Args", null}, {"o.Inn.hidden", null}, {"o.Inn.MarshalJSON", null},
		{"o.Inn.Next", null}, {"o.Inn.Next.X", null}, {"o.Inn.Next.Next.X + 1", null}, {"o.Inn.Iface", c.F},
		{"o.Inn.List.X", []V{int64(1), int64(2)}}, {"o.Inn.List[1].Twice", int64(4)}, {"o.Inn.List[-2].X", int64(1)},
		{"os.A", []V{c.A, c.A}}, {"os[0].B", string(c.B)}, {"ps[0].Inn.X", c.A}, {"ps.A", []V{c.A}}, {"ps[0].Emb", c.A + 7},
		{"len(list=o.L)", int64(len(c.L))}, {"len(list=os)", int64(2)},
		{"o.A + o.Inn.X", c.A + c.A}, {"o.A = o.Inn.X", true}, {"o.B =~ '^'", true},
		{"get(item=o, member='Inn.X')", c.A},
	}
	if c.Nil {
		exps = append(exps, exp{"o.P", null}, exp{"o.P.X", null}, exp{"o.P.Twice", null}, exp{"o.P.List.X", null})
	} else {
		e := "o.P"
		for i := c.Depth - 1; i >= 0; i-- {
			exps = append(exps, exp{e + ".X", int64(i)}, exp{e + ".PtrTwice", int64(i * 4)}, exp{e + ".Twice", int64(i * 2)})
			e += ".Next"
		}
		exps = append(exps, exp{e + ".X", c.A}, exp{e + ".PtrTwice", c.A * 4}, exp{e + ".Next", null}, exp{e + ".Next.Next.X", null})
	}
	text := "SELECT "
	want := newObj()
	for i, e := range exps {
		if i > 0 {
			text += ", "
		}
		text += e.e + " AS e" + itoa(i)
		want.Set("e"+itoa(i), e.want)
	}
	text += " FROM scope()"
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		run.Scope.AppendVars(env)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		vql, err := vfilter.Parse(text)
		if err != nil {
			panic(failure{err.Error()})
		}
		got := drain(run, vql)
		if len(got) != 1 {
			panic(failure{"no row"})
		}
		for i, e := range exps {
			if v := got[0].(*Obj).Vals["e"+itoa(i)]; !same(v, e.want) {
				panic(failure{fmt.Sprintf("%s is %v, expected %v\n%#v", e.e, show(v), show(e.want), o)})
			}
		}
		// A struct as a row.
		vql, _ = vfilter.Parse("SELECT * FROM foreach(row=ps, query={ SELECT A, bee, Emb, L FROM scope() })")
		_ = vql
		run.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s\n%#v", msg, o)
	}
	r.NonTrivial()
	_ = math.Pi
}

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "types: expressions and queries over variables whose values, list elements and columns have random Go types (non-trivial: a row of the result and one value of another type than the usual); " +
			"times: all comparisons between random times, seconds and fractions (always non-trivial); structs: fields, tags, methods, pointers and slices of Go structs (always non-trivial).",
		Assumptions: []string{"a Go value means the VQL value of the same content"},
		Arms: []*Arm{
			arm("types", 20000, 500000, genGoTypes, checkGoTypes),
			arm("times", 2500, 15000, genTimes, checkTimes),
			arm("structs", 3000, 50000, func(t *rapid.T) *structCase {
				g := newG(t)
				c := &structCase{A: int64(g.n(-100, 100)), B: []byte(g.pick(strValues...)), F: float64(g.n(-8, 8)) / 4,
					Nil: g.chance(30), Depth: g.n(0, 3), Form: g.n(0, 1)}
				for i := g.n(0, 3); i > 0; i-- {
					c.L = append(c.L, int64(g.n(-5, 5)))
				}
				return c
			}, checkStructs),
		},
	})
}
