package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

// Evaluation of any program over any Go value ends, without a panic.

type oddStruct struct {
	A    int
	B    *oddStruct
	C    []interface{}
	D    map[string]int
	E    error
	F    func() int
	priv int
	G    *ordereddict.Dict
	H    types.Any
}

func (self oddStruct) NoResult()            {}
func (self oddStruct) Two() (int, error)    { return 1, nil }
func (self oddStruct) Arg(x int) int        { return x }
func (self oddStruct) Vari(x ...int) int    { return len(x) }
func (self oddStruct) Nil() *oddStruct      { return nil }
func (self oddStruct) Value() types.Any     { return nil }
func (self *oddStruct) Pointer() *oddStruct { return self }

type oddString string
type oddInt int64
type oddFloat float32
type oddList []int
type oddMap map[string]interface{}
type oddBool bool
type oddErr struct{}

func (self *oddErr) Error() string { return "odd" }

type oddStringer struct{ s *string }

func (self oddStringer) String() string { return "odd stringer" }

type oddMembers struct{}

func (self oddMembers) Members() []string { return []string{"a", "nope"} }

type oddNoMembers struct{}

func (self oddNoMembers) Members() []string { return nil }

type oddLazy struct{ v types.Any }

func (self oddLazy) Reduce(ctx context.Context) types.Any { return self.v }
func (self oddLazy) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	return self.v
}

type oddQuery struct{ rows []types.Row }

func (self oddQuery) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for _, r := range self.rows {
			select {
			case <-ctx.Done():
				return
			case out <- r:
			}
		}
	}()
	return out
}
func (self oddQuery) ToString(scope types.Scope) string { return "odd" }
func (self oddQuery) Checksum() string                  { return "odd" }

type oddMat struct{}

func (self oddMat) Materialize(ctx context.Context, scope types.Scope) types.Any { return nil }

type oddKey struct{ a, b int }

var oddKinds = []string{
	"nil", "Null", "*Null", "nil*Null", "int", "int8", "uint8", "uint64", "maxuint", "oddInt", "float", "nan", "inf", "-inf", "negzero",
	"float32", "oddFloat", "complex", "string", "badutf8", "empty", "bytes", "nilbytes", "oddString", "*string", "nil*string", "nil*int64", "*int64",
	"**int", "*float64", "nil*float64", "error", "nilerr", "stringer", "*stringer", "nil*stringer", "map", "mapint", "mapintkey", "nilmap", "oddMap", "nilchan", "chan",
	"func", "func0", "func1", "func2", "nilfunc", "funcany", "empty struct", "struct", "*struct", "nil*struct", "**struct", "array", "array0", "nested", "anys", "emptyanys", "errors",
	"time", "*time", "nil*time", "zerotime", "duration", "nildict", "dict", "emptydict", "rawjson", "regexp", "nilregexp", "query", "*query", "nullquery", "emptyquery", "nilSQ", "lazy", "lazylazy", "lazyq",
	"scope", "members", "nomembers", "mat", "bool", "oddBool", "*bool", "oddList", "dicts", "niltypes", "rows", "nilrows", "*anys", "nilanys", "bignum", "uintptr", "mapstruct", "ptrmap", "lazyrow",
}

func oddValue(k string, scope types.Scope) types.Any {
	i := 7
	i64 := int64(5)
	f := 2.5
	s := "str"
	b := true
	st := &oddStruct{A: 1, C: []interface{}{nil, 1}, D: map[string]int{"a": 1}}
	now := time.Unix(1600000000, 5)
	switch k {
	case "nil":
		return nil
	case "Null":
		return types.Null{}
	case "*Null":
		return &types.Null{}
	case "nil*Null":
		return (*types.Null)(nil)
	case "int":
		return 3
	case "int8":
		return int8(-3)
	case "uint8":
		return uint8(3)
	case "uint64":
		return uint64(3)
	case "maxuint":
		return uint64(math.MaxUint64)
	case "oddInt":
		return oddInt(2)
	case "float":
		return 1.5
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "-inf":
		return math.Inf(-1)
	case "negzero":
		return math.Copysign(0, -1)
	case "float32":
		return float32(1.25)
	case "oddFloat":
		return oddFloat(1.25)
	case "complex":
		return complex(1, 2)
	case "string":
		return "hello"
	case "badutf8":
		return "a\xff\xfeb"
	case "empty":
		return ""
	case "bytes":
		return []byte("xyz")
	case "nilbytes":
		return []byte(nil)
	case "oddString":
		return oddString("odd")
	case "*string":
		return &s
	case "nil*string":
		return (*string)(nil)
	case "nil*int64":
		return (*int64)(nil)
	case "*int64":
		return &i64
	case "**int":
		p := &i
		return &p
	case "*float64":
		return &f
	case "nil*float64":
		return (*float64)(nil)
	case "error":
		return errors.New("an error")
	case "nilerr":
		return (*oddErr)(nil)
	case "stringer":
		return oddStringer{}
	case "*stringer":
		return &oddStringer{}
	case "nil*stringer":
		return (*oddStringer)(nil)
	case "map":
		return map[string]interface{}{"a": 1, "b": nil}
	case "mapint":
		return map[string]int{"a": 1}
	case "mapintkey":
		return map[int]string{1: "a"}
	case "nilmap":
		return map[string]interface{}(nil)
	case "oddMap":
		return oddMap{"a": 1}
	case "nilchan":
		return (chan int)(nil)
	case "chan":
		c := make(chan types.Row)
		close(c)
		return c
	case "func":
		return func() int { return 1 }
	case "func0":
		return func() {}
	case "func1":
		return func(a int) int { return a }
	case "func2":
		return func() (int, string) { return 1, "a" }
	case "nilfunc":
		return (func() types.Any)(nil)
	case "funcany":
		return func() types.Any { return []types.Any{1, nil} }
	case "empty struct":
		return struct{}{}
	case "struct":
		return *st
	case "*struct":
		return st
	case "nil*struct":
		return (*oddStruct)(nil)
	case "**struct":
		return &st
	case "array":
		return [2]int{1, 2}
	case "array0":
		return [0]int{}
	case "nested":
		return [][]int{{1}, nil}
	case "anys":
		return []types.Any{nil, 1, "a", types.Null{}, st}
	case "emptyanys":
		return []types.Any{}
	case "nilanys":
		return []types.Any(nil)
	case "*anys":
		return &[]types.Any{1, 2}
	case "errors":
		return []error{nil, errors.New("x")}
	case "time":
		return now
	case "*time":
		return &now
	case "nil*time":
		return (*time.Time)(nil)
	case "zerotime":
		return time.Time{}
	case "duration":
		return time.Second
	case "nildict":
		return (*ordereddict.Dict)(nil)
	case "dict":
		return ordereddict.NewDict().Set("a", 1).Set("b", nil).Set("x y", []int{1})
	case "emptydict":
		return ordereddict.NewDict()
	case "rawjson":
		return json.RawMessage(`{"a":1}`)
	case "regexp":
		return regexp.MustCompile("a.")
	case "nilregexp":
		return (*regexp.Regexp)(nil)
	case "query":
		return oddQuery{[]types.Row{ordereddict.NewDict().Set("a", 1), 3, st}}
	case "*query":
		return &oddQuery{}
	case "nullquery":
		return oddQuery{[]types.Row{nil, types.Null{}, (*oddStruct)(nil)}}
	case "emptyquery":
		return oddQuery{}
	case "nilSQ":
		return types.StoredQuery(nil)
	case "lazy":
		return oddLazy{1}
	case "lazylazy":
		return oddLazy{oddLazy{oddLazy{nil}}}
	case "lazyq":
		return oddLazy{oddQuery{[]types.Row{1, "a"}}}
	case "scope":
		return scope
	case "members":
		return oddMembers{}
	case "nomembers":
		return oddNoMembers{}
	case "mat":
		return oddMat{}
	case "bool":
		return true
	case "oddBool":
		return oddBool(true)
	case "*bool":
		return &b
	case "oddList":
		return oddList{1, 2}
	case "dicts":
		return []*ordereddict.Dict{nil, ordereddict.NewDict().Set("a", 1)}
	case "niltypes":
		return []*oddStruct{nil, st}
	case "rows":
		return []types.Row{ordereddict.NewDict().Set("a", 1), nil, 5}
	case "nilrows":
		return []types.Row(nil)
	case "bignum":
		return int64(math.MaxInt64)
	case "uintptr":
		return uintptr(3)
	case "mapstruct":
		return map[oddKey]int{{1, 2}: 3}
	case "ptrmap":
		return map[string]*oddStruct{"a": nil, "b": st}
	case "lazyrow":
		return vfilter.NewLazyRow(context.Background(), scope)
	}
	panic("harness: unknown kind " + k)
}

// oddThrottler stops a query which goes on for too long.
type oddThrottler struct {
	n      int64
	cancel func()
}

func (self *oddThrottler) ChargeOp() {
	if atomic.AddInt64(&self.n, 1) > 3000 {
		self.cancel()
	}
}
func (self *oddThrottler) Close() {}

// oddFunc returns its argument of any kind, unchanged.
type oddFunc struct {
	name  string
	value types.Any
}

func (self oddFunc) Copy() types.FunctionInterface { return self }
func (self oddFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: self.name}
}
func (self oddFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return self.value
}

type totCase struct {
	Kinds []string // kind of v0, v1, ...
	Sts   []*St
}

// tot generates programs over values of any kind.
type tot struct {
	*G
	nv    int
	exprs []*St
	rec   bool
	cols  []string
}

var totFuncs = map[string][]string{
	"dict": {"a", "b"}, "timestamp": {"epoch", "winfiletime"}, "split": {"string", "sep", "sep_string"},
	"if": {"condition", "then", "else"}, "format": {"format", "args"}, "get": {"item", "member"},
	"encode": {"string", "type"}, "count": {"items"}, "sum": {"item"}, "min": {"item"}, "max": {"item"},
	"enumerate": {"items"}, "len": {"list"}, "scope": {}, "version": {"function", "plugin"},
	"track": {"id", "v"}, "ident": {"v"}, "kwargs": {"a", "b", "**"}, "nosuch": {"a"},
}
var totPlugins = map[string][]string{
	"if": {"condition", "then", "else"}, "flatten": {"query"}, "chain": {"a", "b", "async"},
	"foreach": {"row", "query", "workers", "column"}, "range": {"start", "end", "step"}, "scope": {}, "emit": {"rows"}, "nosuch": {"a"},
}

func (g *tot) name() string {
	switch g.n(0, 9) {
	case 0:
		return g.pick("a", "b", "c", "A", "_value", "nosuch", "NULL")
	case 1:
		if len(g.cols) > 0 {
			return g.pick(g.cols...)
		}
	case 2:
		if len(g.exprs) > 0 {
			return g.exprs[g.n(0, len(g.exprs)-1)].Let
		}
	}
	return fmt.Sprintf("v%d", g.n(0, g.nv-1))
}

// element is part of a list. It is not a query: when a list of queries is
// a row then every look up of a name in it runs them all.
func (g *tot) element() *E {
	if g.chance(20) {
		return eNum("1")
	}
	e := eSym(fmt.Sprintf("v%d", g.n(0, g.nv-1)))
	if g.chance(30) {
		return eMul("*", e, eInt(2))
	}
	return e
}

func (g *tot) e(depth int) *E {
	if depth <= 0 {
		switch g.n(0, 9) {
		case 0:
			return eNum(g.pick("0", "1", "-1", "2.5", "9223372036854775807", "-9223372036854775808", "1e999", "0x7f"))
		case 1:
			return eStr(g.pick("", "a", "%d %s", "(", "hex", "utf16", "string", "a.b.0", ".*", "A", "0"))
		case 2:
			return eNull()
		}
		return eSym(g.name())
	}
	n := func() int { return g.n(0, depth-1) }
	switch g.n(0, 13) {
	case 0:
		return &E{K: "and", Ops: []string{"AND"}, A: []*E{g.e(n()), g.e(n())}}
	case 1:
		return &E{K: "or", Ops: []string{"OR"}, A: []*E{g.e(n()), g.e(n())}}
	case 2:
		return &E{K: "not", A: []*E{g.e(n())}}
	case 3, 4:
		return eCmp(g.pick(synCmp...), g.e(n()), g.e(n()))
	case 5:
		return eAdd(g.pick("+", "-"), g.e(n()), g.e(n()))
	case 6:
		return eMul(g.pick("*", "/"), g.e(n()), g.e(n()))
	case 7:
		return eList(g.element(), g.element())
	case 8, 9:
		e := &E{K: "mem", A: []*E{g.e(n())}}
		for i := g.n(1, 2); i > 0; i-- {
			m := &Mem{K: g.pick("term", "index", "range")}
			if m.K == "term" {
				m.S = g.pick("a", "b", "A", "B", "C", "D", "E", "F", "G", "H", "NoResult", "Two", "Arg", "Vari", "Nil", "Value", "Pointer", "priv", "x y", "nope", "String", "Error", "Len", "Keys", "UTC", "Unix", "Zone", "Reduce", "Eval", "Members", "Copy", "Close", "Items")
			} else {
				if m.K == "index" || g.chance(60) {
					m.I = g.e(n())
				}
				if m.K == "range" && g.chance(60) {
					m.J = g.e(n())
				}
			}
			e.T = append(e.T, m)
		}
		e.A[0].St |= 8
		return e
	case 10:
		if len(g.exprs) > 0 {
			s := g.exprs[g.n(0, len(g.exprs)-1)]
			c := eCall(s.Let)
			for _, p := range s.Params {
				if g.chance(80) {
					c.P = append(c.P, g.arg(p.Name, n()))
				}
			}
			return c
		}
	}
	f := g.pick(sortedKeys(totFuncs)...)
	if f == "enumerate" {
		// A list of queries as a row: every look up of a name runs them all.
		return eCall(f, aE("items", eSym(fmt.Sprintf("v%d", g.n(0, g.nv-1)))))
	}
	return eCall(f, g.args(totFuncs[f], depth)...)
}

func (g *tot) arg(name string, depth int) *Arg {
	switch g.n(0, 9) {
	case 0:
		if depth > 0 {
			return aQ(name, g.q(depth-1))
		}
	case 1:
		a := aArr(name)
		for i := g.n(0, 2); i > 0; i-- {
			a.A = append(a.A, g.element())
		}
		return a
	}
	return aE(name, g.e(depth-1))
}

func (g *tot) args(names []string, depth int) (r []*Arg) {
	for _, n := range names {
		if g.chance(75) {
			if n == "workers" {
				// The number of workers is a resource the program asks for.
				r = append(r, aE(n, g.pickE(eInt(g.n(0, 3)), eNum("-1"), eStr("a"), eNum("1.5"))))
				continue
			}
			r = append(r, g.arg(n, depth))
		}
	}
	if g.chance(4) {
		r = append(r, g.arg("odd", depth))
	}
	if g.chance(3) {
		r = []*Arg{g.arg("**", depth)}
	}
	return r
}

func (g *tot) pickE(a ...*E) *E { return a[g.n(0, len(a)-1)] }

func (g *tot) from(depth int) *From {
	switch g.n(0, 3) {
	case 0:
		return from(g.name())
	case 1:
		return fromCall("scope")
	}
	if len(g.exprs) > 0 && g.chance(20) {
		s := g.exprs[g.n(0, len(g.exprs)-1)]
		f := fromCall(s.Let)
		for _, p := range s.Params {
			f.P = append(f.P, g.arg(p.Name, depth-1))
		}
		return f
	}
	p := g.pick(sortedKeys(totPlugins)...)
	return fromCall(p, g.args(totPlugins[p], depth)...)
}

func (g *tot) q(depth int) *Q {
	q := &Q{Explain: g.chance(5)}
	if g.chance(35) {
		q.Cols = append(q.Cols, cStar())
	}
	old := g.cols
	for i := g.n(0, 2); i > 0 || len(q.Cols) == 0; i-- {
		c := &Col{As: g.pick("a", "b", "A", "")}
		if g.chance(10) && depth > 0 {
			c.Q = g.q(depth - 1)
		} else {
			c.E = g.e(g.n(0, depth))
		}
		q.Cols = append(q.Cols, c)
	}
	q.From = g.from(depth)
	if g.chance(35) {
		q.Where = g.e(depth)
	}
	if g.chance(25) {
		q.Group = append(q.Group, g.e(depth-1))
		if g.chance(30) {
			q.Group = append(q.Group, g.e(depth-1))
		}
	}
	if g.chance(25) {
		q.Order = g.pick("a", "b", "A", "nosuch")
		q.Desc = g.chance(50)
	}
	if g.chance(20) {
		n := g.n(0, 5)
		q.Limit = &n
	}
	g.cols = old
	return q
}

func genTot(t *rapid.T) *totCase {
	g := &tot{G: newG(t)}
	c := &totCase{}
	for i := g.n(1, 4); i > 0; i-- {
		c.Kinds = append(c.Kinds, g.pick(oddKinds...))
	}
	g.nv = len(c.Kinds)
	for i := g.n(0, 2); i > 0; i-- {
		s := &St{Let: fmt.Sprintf("L%d", i), Op: g.pick("=", "=", "<=")}
		if g.chance(40) {
			s.Called = true
			for _, p := range []string{"p", "r"} {
				if g.chance(60) {
					pa := &Param{Name: p}
					if g.chance(40) {
						pa.Def = g.arg(p, 1)
					}
					s.Params = append(s.Params, pa)
				}
			}
			s.Op = "="
			g.cols = append(g.cols, "p", "r")
		}
		if g.chance(50) {
			s.Q = g.q(2)
		} else {
			s.E = g.e(2)
			if s.E.K == "list" {
				s.E.St &^= 8
			}
		}
		c.Sts = append(c.Sts, s)
		g.exprs = append(g.exprs, s)
	}
	q := g.q(3)
	q.Explain = g.chance(5)
	c.Sts = append(c.Sts, &St{Q: q})
	if strings.Contains(program(c.Sts), "flatten") {
		// flatten() of a value with dozens of columns which are lists asks
		// for their cartesian product.
		for i, k := range c.Kinds {
			if strings.HasSuffix(k, "time") {
				c.Kinds[i] = "duration"
			}
		}
	}
	return c
}

func runTot(r *R, kinds []string, text string) (rows int, run *Run) {
	msg := inBubble(r.T, func() {
		run = &Run{Track: newTracker(), Log: &logBuf{}}
		s := vfilter.NewScope()
		s.SetLogger(log.New(run.Log, "", 0))
		s.AppendFunctions(trackFunc{run.Track}, identFunc{})
		s.AppendPlugins(emitPlugin{run.Track})
		d := ordereddict.NewDict()
		for i, k := range kinds {
			d.Set(fmt.Sprintf("v%d", i), oddValue(k, s))
		}
		s.AppendFunctions(oddFunc{"kwargs", oddValue(kinds[0], s)})
		s.AppendVars(d)
		run.Scope = s
		ctx, cancel := context.WithCancel(context.Background())
		th := &oddThrottler{cancel: cancel}
		s.SetThrottler(th)
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{fmt.Sprintf("the program does not parse: %v\n%s", err, text)})
		}
		for _, v := range vqls {
			_ = v.Type()
			for row := range v.Eval(ctx, s) {
				rows++
				if rows > 100 {
					cancel()
				}
				// What a consumer does with the row.
				for _, m := range s.GetMembers(row) {
					x, _ := s.Associative(row, m)
					s.Bool(x)
				}
				out := dict.RowToDict(ctx, s, row)
				_ = out
			}
		}
		s.Close()
		cancel()
		time.Sleep(time.Second)
	})
	if msg != "" {
		r.Failf("%s\nprogram:\n%s\nvalues: %s", msg, text, strings.Join(kinds, ", "))
	}
	return rows, run
}

func checkTot(r *R, c *totCase) {
	if len(c.Kinds) == 0 {
		return
	}
	text := program(c.Sts)
	rows, run := runTot(r, c.Kinds, text)
	for _, k := range c.Kinds {
		r.Class("value " + k)
	}
	if strings.Contains(run.Log.String(), "PANIC") || strings.Contains(run.Log.String(), "panic:") {
		r.Failf("a panic was logged\n%s\nprogram:\n%s\nvalues: %s", run.Log.String(), text, strings.Join(c.Kinds, ", "))
	}
	r.NonTrivialIf(rows > 0)
}

// Recursion: definitions that call themselves.

type recCase struct {
	Form  string
	Wraps []int
	N     int
	Via   int
}

// What is done with the result of the recursive call. Nothing that doubles the
// size of the value: a thousand of these are nested.
var recWraps = []string{
	"(%s)", "(%s) + 1", "dict(a=(%s))", "if(condition=1, then=(%s))", "(0, (%s))",
	"get(item=dict(a=(%s)), member='a')", "len(list=(%s))", "(%s).a", "(%s)[0]", "NOT (%s)", "(%s) = 1", "1 AND (%s)", "(%s) OR 0",
	"if(condition=(%s), then=2, else=3)", "ident(v=(%s))", "min(item=(%s))",
	"sum(item=(%s))", "track(id='a', v=(%s))", "1 IN (%s)", "(%s) =~ 'a'", "(%s)[0:1]", "(%s) / 2", "timestamp(epoch=(%s))",
}

var recQueries = []string{
	"SELECT * FROM Q(n=n + 1)", "SELECT Q(n=n + 1) AS A FROM scope()", "SELECT * FROM foreach(row={ SELECT * FROM Q(n=n + 1) })",
	"SELECT * FROM foreach(row=[1, ], query={ SELECT * FROM Q(n=n + 1) })", "SELECT * FROM chain(a={ SELECT * FROM Q(n=n + 1) })",
	"SELECT * FROM if(condition=1, then={ SELECT * FROM Q(n=n + 1) })", "SELECT * FROM flatten(query={ SELECT * FROM Q(n=n + 1) })",
	"SELECT * FROM Q(n=n + 1) WHERE 1", "SELECT count() AS C FROM Q(n=n + 1) GROUP BY 1", "SELECT * FROM Q(n=n + 1) ORDER BY a", "SELECT * FROM Q(n=n + 1) LIMIT 1",
	"SELECT { SELECT * FROM Q(n=n + 1) } AS A FROM scope()", "SELECT * FROM scope() WHERE Q(n=n + 1)", "SELECT len(list=Q(n=n + 1)) AS A FROM scope()",
	"SELECT * FROM Q", "SELECT * FROM foreach(row=Q)", "SELECT Q AS A FROM scope()", "SELECT * FROM foreach(row=[1, ], query=Q)", "SELECT * FROM emit(rows=Q)",
	"SELECT Q.A AS A FROM scope()", "SELECT * FROM foreach(row=[1, ], query={ SELECT * FROM Q }, workers=2)", "EXPLAIN SELECT * FROM Q",
}

func (c *recCase) text() string {
	wrap := func(call string) string {
		for _, w := range c.Wraps {
			call = fmt.Sprintf(recWraps[w%len(recWraps)], call)
		}
		return call
	}
	switch c.Form {
	case "expr":
		return "LET f = " + wrap("f") + " SELECT f AS A FROM scope()"
	case "func":
		return "LET f(n) = " + wrap("f(n=n + 1)") + " SELECT f(n=1) AS A FROM scope()"
	case "default":
		return "LET f(n=f()) = " + wrap("n") + " SELECT f() AS A FROM scope()"
	case "mutual":
		return "LET g(n) = " + wrap("f(n=n + 1)") + " LET f(n) = g(n=n) SELECT f(n=1) AS A FROM scope()"
	case "lambda":
		return "LET f(n) = " + wrap("f(n=n)") + " LET x <= f SELECT x AS A FROM scope()"
	case "query":
		return "LET Q(n) = " + recQueries[c.Via%len(recQueries)] + " SELECT * FROM Q(n=1)"
	case "stored":
		return "LET n = 1 LET Q = " + recQueries[c.Via%len(recQueries)] + " SELECT * FROM Q"
	case "sum":
		return fmt.Sprintf("LET f(n) = if(condition=n > 0, then=n + f(n=n - 1), else=0) SELECT f(n=%d) AS A FROM scope()", c.N)
	case "rows":
		return fmt.Sprintf("LET Q(n) = SELECT * FROM chain(a={ SELECT n AS A FROM scope() }, b={ SELECT * FROM if(condition=n > 0, then={ SELECT * FROM Q(n=n - 1) }) }) SELECT * FROM Q(n=%d)", c.N)
	}
	panic("harness: unknown form " + c.Form)
}

func genRec(t *rapid.T) *recCase {
	g := newG(t)
	c := &recCase{Form: g.pick("expr", "func", "func", "default", "mutual", "lambda", "query", "query", "stored", "stored", "sum", "rows"),
		N: g.n(0, 40), Via: g.n(0, len(recQueries)-1)}
	for i := g.n(0, 2); i > 0; i-- {
		c.Wraps = append(c.Wraps, g.n(0, len(recWraps)-1))
	}
	return c
}

func checkRec(r *R, c *recCase) {
	text := c.text()
	res, _, msg := runText(r.T, &Env{}, text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text)
	}
	rows := res[len(res)-1]
	r.Class(c.Form)
	switch c.Form {
	case "sum":
		want := []V{newObj().Set("A", int64(c.N*(c.N+1)/2))}
		if !sameRows(want, rows) {
			r.Failf("a recursive function gives the wrong value\nprogram:\n%s\nexpected %s\ngot %s", text, showRows(want), showRows(rows))
		}
	case "rows":
		want := []V{}
		for i := c.N; i >= 0; i-- {
			want = append(want, newObj().Set("A", int64(i)))
		}
		if !sameRows(want, rows) {
			r.Failf("a recursive query gives the wrong rows\nprogram:\n%s\nexpected %s\ngot %s", text, showRows(want), showRows(rows))
		}
	}
	r.NonTrivial()
}

func init() {
	register(&Prop{ID: "C11",
		Rule: "non-trivial: the program emitted at least one row",
		Assumptions: []string{
			"methods and functions of the host's values do not themselves panic",
		},
		Arms: []*Arm{
			arm("values", 25000, 600000, genTot, checkTot),
			arm("recursion", 500, 8000, genRec, checkRec),
		}})
}
