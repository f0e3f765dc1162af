package props

import (
	"bytes"
	"context"
	"fmt"
	"log"
	"strings"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Scopes: trees of scopes against a model, and what a query leaves in the
// scope it was run in.

type sOp struct {
	Op    string
	Scope int
	Name  string
	N     int
	Text  string
	Lazy  bool
}

type scopeCase struct{ Ops []sOp }

var scopeNames = []string{"a", "b", "c", "d", "e"}

// Queries which use all of the names for rows, parameters and variables of
// their own.
func (g *G) scopeQuery() string {
	col := func() string { return g.pick(scopeNames...) }
	src := func() string {
		return g.pick("scope()", "range(start=0, end=2)", "emit(rows=(dict("+col()+"=77), dict("+col()+"=78)))")
	}
	return g.pick(
		fmt.Sprintf("SELECT 91 AS %s, %s, * FROM %s WHERE NOT %s = 3", col(), col(), src(), col()),
		fmt.Sprintf("SELECT * FROM foreach(row={ SELECT 92 AS %s, 93 AS %s FROM %s }, query={ SELECT %s, 94 AS %s FROM %s })", col(), col(), src(), col(), col(), src()),
		fmt.Sprintf("SELECT * FROM foreach(row=[dict(%s=95)], query={ SELECT %s FROM scope() }, workers=3)", col(), col()),
		fmt.Sprintf("SELECT %s FROM %s GROUP BY %s", col(), src(), col()),
		fmt.Sprintf("SELECT 96 AS %s FROM %s ORDER BY %s", col(), src(), col()),
		fmt.Sprintf("SELECT { SELECT 97 AS %s FROM %s } AS %s FROM %s LIMIT 1", col(), src(), col(), src()),
		fmt.Sprintf("SELECT * FROM chain(a={ SELECT 98 AS %s FROM scope() }, b={ SELECT * FROM if(condition=%s, then={ SELECT 99 AS %s FROM scope() }) })", col(), col(), col()),
	)
}

func genScopes(t *rapid.T) *scopeCase {
	g := newG(t)
	c := &scopeCase{}
	n := 1
	for i := g.n(2, 30); i > 0; i-- {
		op := sOp{Scope: g.n(0, n-1), Name: g.pick(scopeNames...), N: g.n(0, 50)}
		switch g.n(0, 21) {
		case 0, 1, 2:
			op.Op = "copy"
			n++
		case 3:
			op.Op = "new"
			n++
		case 4, 5, 6, 7:
			op.Op = "var"
		case 8:
			op.Op = "nil"
		case 9:
			op.Op = "set"
		case 10:
			op.Op = "clear"
		case 11:
			op.Op = "agg"
		case 12:
			op.Op = "newagg"
		case 13:
			op.Op = "func"
		case 14:
			op.Op = "plugin"
		case 15:
			op.Op = "logger"
		case 16:
			op.Op = "log"
		case 17, 18:
			op.Op = "let"
			op.Text = g.pick("=", "<=")
		case 19:
			op.Op = "proto"
		default:
			op.Op = "query"
			op.Text = g.scopeQuery()
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// The model.

type mDisp struct {
	funcs, plugins map[string]int
	ctx            map[string]int
	logger         int
	proto          int // how many int types know addition
}

type mAgg struct{ n map[string]int }

type mSc struct {
	disp   *mDisp
	vars   []map[string]int // -1 is nil
	agg    *mAgg
	parent *mSc
}

func copyMap(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *mSc) resolve(name string) string {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if v, ok := s.vars[i][name]; ok {
			if v < 0 {
				return "nil"
			}
			return fmt.Sprint(v)
		}
	}
	return "unknown"
}

func (s *mSc) aggregate() *mAgg {
	if s.agg == nil && s.parent != nil {
		return s.parent.aggregate()
	}
	if s.agg == nil {
		s.agg = &mAgg{map[string]int{}}
	}
	return s.agg
}

type constFunc struct {
	name string
	n    int
}

func (self constFunc) Copy() types.FunctionInterface { return self }
func (self constFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: self.name}
}
func (self constFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return self.n
}

type constPlugin struct {
	name string
	n    int
}

func (self constPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: self.name}
}
func (self constPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row, 1)
	out <- ordereddict.NewDict().Set("v", self.n)
	close(out)
	return out
}

// Types with an addition of their own.
type added0 struct{ n int }
type added1 struct{ n int }
type added2 struct{ n int }

func addedValue(i int) interface{} { return []interface{}{added0{1}, added1{1}, added2{1}}[i%3] }

type addedImpl struct{ i, n int }

func (self addedImpl) Applicable(a types.Any, b types.Any) bool {
	switch a.(type) {
	case added0:
		return self.i == 0
	case added1:
		return self.i == 1
	case added2:
		return self.i == 2
	}
	return false
}

func (self addedImpl) Add(scope types.Scope, a types.Any, b types.Any) types.Any { return self.n }

func intText(v interface{}, pres bool) string {
	if !pres {
		return "unknown"
	}
	if types.IsNil(v) {
		return "nil"
	}
	return fmt.Sprint(v)
}

func checkScopes(r *R, c *scopeCase) {
	// The model.
	d0 := &mDisp{funcs: map[string]int{}, plugins: map[string]int{}, ctx: map[string]int{}, logger: -1}
	ms := []*mSc{{disp: d0, agg: &mAgg{map[string]int{}}}}
	protos := map[*mDisp]map[int]int{d0: {}}
	cleared := false
	mlogs := map[int][]string{}

	var fail string
	queries := 0
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Scope.SetLogger(nil)
		scopes := []types.Scope{run.Scope}
		logs := map[int]*bytes.Buffer{}
		exec := func(s types.Scope, text string) {
			vqls, err := vfilter.MultiParse(text)
			if err != nil {
				panic("harness: " + err.Error() + "\n" + text)
			}
			for _, v := range vqls {
				for range v.Eval(ctx, s) {
				}
			}
		}
		for i, op := range c.Ops {
			m, s := ms[op.Scope], scopes[op.Scope]
			key := op.Name
			switch op.Op {
			case "copy":
				ms = append(ms, &mSc{disp: m.disp, vars: append([]map[string]int{}, m.vars...), parent: m})
				scopes = append(scopes, s.Copy())
			case "new":
				d := &mDisp{funcs: copyMap(m.disp.funcs), plugins: copyMap(m.disp.plugins), ctx: map[string]int{}, logger: m.disp.logger}
				ms = append(ms, &mSc{disp: d, agg: &mAgg{map[string]int{}}})
				protos[d] = map[int]int{}
				for k, v := range protos[m.disp] {
					protos[d][k] = v
				}
				scopes = append(scopes, s.NewScope())
			case "var":
				m.vars = append(m.vars, map[string]int{key: op.N})
				s.AppendVars(ordereddict.NewDict().Set(key, op.N))
			case "nil":
				m.vars = append(m.vars, map[string]int{key: -1})
				s.AppendVars(ordereddict.NewDict().Set(key, nil))
			case "let":
				m.vars = append(m.vars, map[string]int{key: op.N})
				exec(s, fmt.Sprintf("LET %s %s %d", key, op.Text, op.N))
			case "set":
				m.disp.ctx[key] = op.N
				s.SetContext(key, op.N)
			case "clear":
				// Functions are shared with the old context, which is
				// not specified.
				cleared = true
				d := &mDisp{funcs: m.disp.funcs, plugins: m.disp.plugins, ctx: map[string]int{}, logger: m.disp.logger}
				protos[d] = map[int]int{}
				for k, v := range protos[m.disp] {
					protos[d][k] = v
				}
				m.disp = d
				s.ClearContext()
			case "agg":
				a := m.aggregate()
				want := a.n[key]
				a.n[key] = op.N
				s.GetAggregatorCtx().Modify(key, func(old types.Any, pres bool) types.Any {
					got := 0
					if pres {
						got = old.(int)
					}
					if got != want {
						fail = fmt.Sprintf("op %d: the aggregate %s of scope %d is %d, not %d", i, key, op.Scope, got, want)
					}
					return op.N
				})
			case "newagg":
				m.agg = &mAgg{map[string]int{}}
				s.SetAggregatorCtx(nil)
			case "func":
				m.disp.funcs[key] = op.N
				s.AppendFunctions(constFunc{key, op.N})
			case "plugin":
				m.disp.plugins[key] = op.N
				s.AppendPlugins(constPlugin{key, op.N})
			case "proto":
				protos[m.disp][op.N%3] = op.N + 1
				s.AddProtocolImpl(addedImpl{op.N % 3, op.N + 1})
			case "logger":
				m.disp.logger = op.N
				if logs[op.N] == nil {
					logs[op.N] = &bytes.Buffer{}
				}
				s.SetLogger(log.New(logs[op.N], "", 0))
			case "log":
				if m.disp.logger >= 0 {
					mlogs[m.disp.logger] = append(mlogs[m.disp.logger], fmt.Sprintf("op%d", i))
				}
				s.Log("op%d", i)
			case "query":
				queries++
				saved := s.GetLogger()
				s.SetLogger(nil)
				exec(s, op.Text)
				s.SetLogger(saved)
			}
			if fail != "" {
				break
			}
			// Everything that is visible, in every scope.
			for j, s := range scopes {
				m := ms[j]
				check := func(what, got, want string) {
					if got != want && fail == "" {
						fail = fmt.Sprintf("after op %d (%s), in scope %d: %s is %s, not %s", i, op.Op, j, what, got, want)
					}
				}
				for _, name := range scopeNames {
					v, pres := s.Resolve(name)
					if e, ok := v.(types.StoredExpression); ok {
						v = e.Reduce(ctx, s)
					}
					check("variable "+name, intText(v, pres), m.resolve(name))
					v, pres = s.GetContext(name)
					want := "unknown"
					if n, ok := m.disp.ctx[name]; ok {
						want = fmt.Sprint(n)
					}
					check("context "+name, intText(v, pres), want)
					// Looking at it makes an aggregate context in a scope
					// which has none in its parents, as in the model.
					f, pres := s.GetFunction(name)
					wantn, ok := m.disp.funcs[name]
					if pres != ok || (ok && f.(constFunc).n != wantn) {
						check("function "+name, fmt.Sprint(f), fmt.Sprintf("%v %v", wantn, ok))
					}
					p, pres := s.GetPlugin(name)
					wantn, ok = m.disp.plugins[name]
					if pres != ok || (ok && p.(constPlugin).n != wantn) {
						check("plugin "+name, fmt.Sprint(p), fmt.Sprintf("%v %v", wantn, ok))
					}
				}
				v, pres := s.Resolve("NULL")
				check("NULL", intText(v, pres), "nil")
				for k := 0; k < 3; k++ {
					want := "nil"
					if n, ok := protos[m.disp][k]; ok {
						want = fmt.Sprint(n)
					}
					if cleared {
						// Protocols after ClearContext() are not specified.
						continue
					}
					check(fmt.Sprintf("addition of type %d", k), intText(s.Add(addedValue(k), addedValue(k)), true), want)
				}
			}
			if fail != "" {
				break
			}
		}
		if fail == "" {
			for k, b := range logs {
				want := ""
				if len(mlogs[k]) > 0 {
					want = strings.Join(mlogs[k], "\n") + "\n"
				}
				// LET warns of the functions it masks.
				got := ""
				for _, l := range strings.SplitAfter(b.String(), "\n") {
					if strings.HasPrefix(l, "op") {
						got += l
					}
				}
				if got != want {
					fail = fmt.Sprintf("the logger %d has %q, not %q", k, got, want)
				}
			}
		}
		for _, s := range scopes {
			s.Close()
		}
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, jsonString(c))
	}
	if fail != "" {
		r.Failf("%s\n%s", fail, jsonString(c))
	}
	r.Count("scopes", len(ms))
	r.Count("queries", queries)
	r.NonTrivialIf(len(ms) > 2)
}

func init() {
	register(&Prop{
		ID: "C16",
		Rule: "Random sequences of copies, new scopes, variables, contexts, aggregates, functions, plugins, protocols, loggers, LETs and queries on a tree of scopes; after each, all that is visible in each of the scopes is compared with a model. " +
			"Non-trivial: at least three scopes.",
		Arms: []*Arm{
			arm("scopes", 10000, 200000, genScopes, checkScopes),
		},
	})
}
