package props

import (
	"bytes"
	"context"
	"fmt"
	"log"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/Velocidex/ordereddict"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// Env is the set of variables a program sees.
type Env struct {
	Names []string
	Vals  []*Val
}

func (e *Env) add(n string, v *Val) { e.Names = append(e.Names, n); e.Vals = append(e.Vals, v) }

func (e *Env) get(n string) *Val {
	for i, x := range e.Names {
		if x == n {
			return e.Vals[i]
		}
	}
	return nil
}

func (e *Env) dict() *ordereddict.Dict {
	d := ordereddict.NewDict()
	for i, n := range e.Names {
		d.Set(n, e.Vals[i].Real())
	}
	return d
}

func (e *Env) obj() *Obj {
	o := newObj()
	for i, n := range e.Names {
		o.Set(n, e.Vals[i].Model())
	}
	return o
}

func (e *Env) scope() *Scope {
	s := &Scope{}
	s.push(objFrame{newObj().Set("NULL", nil)})
	s.push(objFrame{e.obj()})
	return s
}

// tracker counts the evaluations of track(id=, v=).
type tracker struct {
	mu    sync.Mutex
	n     map[string]int
	trace []string
}

func newTracker() *tracker { return &tracker{n: map[string]int{}} }

type trackFunc struct{ t *tracker }

type trackArgs struct {
	Id string         `vfilter:"required,field=id"`
	V  types.LazyExpr `vfilter:"optional,field=v"`
}

func (self trackFunc) Copy() types.FunctionInterface { return self }
func (self trackFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "track", ArgType: tm.AddType(scope, &trackArgs{})}
}
func (self trackFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	arg := &trackArgs{}
	if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
		return types.Null{}
	}
	self.t.mu.Lock()
	self.t.n[arg.Id]++
	self.t.trace = append(self.t.trace, arg.Id)
	self.t.mu.Unlock()
	if arg.V == nil {
		return types.Null{}
	}
	return arg.V.Reduce(ctx)
}

// ident returns its argument with queries expanded.
type identFunc struct{}

func (self identFunc) Copy() types.FunctionInterface { return self }
func (self identFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "ident"}
}
func (self identFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	v, _ := args.Get("v")
	if l, ok := v.(types.LazyExpr); ok {
		v = l.Reduce(ctx)
	}
	if q, ok := v.(types.StoredQuery); ok {
		return types.Materialize(ctx, scope, q)
	}
	return v
}

// boomFunc panics and recovers as plugins and functions should.
type boomFunc struct{}

func (self boomFunc) Copy() types.FunctionInterface { return self }
func (self boomFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "boom"}
}
func (self boomFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	defer types.RecoverVQL(scope)
	v, _ := args.Get("v")
	if l, ok := v.(types.LazyExpr); ok {
		v = l.Reduce(ctx)
	}
	panic(v)
}

// emit is a plugin that streams the rows it is given.
type emitPlugin struct{ t *tracker }

func (self emitPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "emit"}
}

func (self emitPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		v, _ := args.Get("rows")
		if l, ok := v.(types.LazyExpr); ok {
			v = l.Reduce(ctx)
		}
		for row := range scope.Iterate(ctx, v) {
			select {
			case <-ctx.Done():
				return
			case out <- row:
			}
		}
	}()
	return out
}

// logBuf is a goroutine safe log destination.
type logBuf struct {
	mu   sync.Mutex
	b    bytes.Buffer
	msgs []string // each message
}

func (self *logBuf) Write(p []byte) (int, error) {
	self.mu.Lock()
	defer self.mu.Unlock()
	if !self.full() {
		self.b.Write(p)
		self.msgs = append(self.msgs, string(p))
	}
	return len(p), nil
}

func (self *logBuf) full() bool { return self.b.Len() >= 1<<20 }

func (self *logBuf) String() string {
	self.mu.Lock()
	defer self.mu.Unlock()
	return self.b.String()
}

// Run is one run of the code under test.
type Run struct {
	Scope types.Scope
	Track *tracker
	Log   *logBuf
	Ctx   context.Context
}

func newRealScope(env *Env) *Run {
	r := &Run{Track: newTracker(), Log: &logBuf{}, Ctx: context.Background()}
	s := vfilter.NewScope()
	s.SetLogger(log.New(r.Log, "", 0))
	s.AppendFunctions(trackFunc{r.Track}, identFunc{}, boomFunc{})
	s.AppendPlugins(emitPlugin{r.Track})
	hostParts.install(s)
	if hostWrap != nil {
		s.AddProtocolImpl(hostWrap.build())
	}
	impls := []types.Any{}
	for n, i := range hostTab {
		impls = append(impls, i.build(n))
	}
	if len(impls)%2 == 0 {
		s.AddProtocolImpl(impls...)
	} else {
		for _, i := range impls {
			s.AddProtocolImpl(i)
		}
	}
	if env != nil {
		s.AppendVars(env.dict())
	}
	r.Scope = s
	return r
}

// bubble runs f in a synctest bubble: time is virtual, and leaving goroutines
// behind which can never finish is reported.
type bubbleResult struct {
	panicked interface{}
	stack    string
}

func inBubble(t *testing.T, f func()) (msg string) {
	var b bubbleResult
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if b.panicked != nil {
				// The deadlock follows from the panic.
				return
			}
			if strings.Contains(s, "deadlock") {
				msg = "goroutines are left blocked for ever: " + trimStack(s)
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
		if b.panicked != nil {
			if fl, ok := b.panicked.(failure); ok {
				panic(fl)
			}
			if u, ok := b.panicked.(unsupported); ok {
				panic(u)
			}
			msg = fmt.Sprintf("panic: %v\n%s", b.panicked, b.stack)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if e := recover(); e != nil {
				b.panicked = e
				b.stack = trimStack(string(debug.Stack()))
			}
		}()
		f()
	})
	return ""
}

// drain reads every row of a query.
func drain(r *Run, vql *vfilter.VQL) []V {
	rows := []V{}
	for row := range vql.Eval(r.Ctx, r.Scope) {
		rows = append(rows, canon(row))
		if len(rows) > 200000 {
			break
		}
	}
	return rows
}

// runText parses and runs a program, one result per statement.
func runText(t *testing.T, env *Env, text string) (res [][]V, run *Run, msg string) {
	msg = inBubble(t, func() {
		run = newRealScope(env)
		ctx, cancel := context.WithCancel(context.Background())
		run.Ctx = ctx
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{fmt.Sprintf("the program does not parse: %v\n%s", err, text)})
		}
		for _, v := range vqls {
			res = append(res, drain(run, v))
		}
		run.Scope.Close()
		cancel()
	})
	return res, run, msg
}

// runProgram runs the program in the code under test, failing the check on a
// panic or on goroutines left behind.
func runProgram(r *R, env *Env, sts []*St) ([][]V, *Run) {
	text := program(sts)
	res, run, msg := runText(r.T, env, text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s\nenv: %s", msg, text, show(env.obj()))
	}
	if len(res) != len(sts) {
		r.Failf("%d statements were parsed as %d:\n%s", len(sts), len(res), text)
	}
	return res, run
}

// settle converts what a model row contains to plain values: a materialized
// query is the list of its rows, a query inside of a value is not defined.
func settle(v V) V {
	switch t := v.(type) {
	case *Mat:
		return settle(append([]V{}, t.Rows...))
	case *SQ:
		giveUp("query inside of a value")
	case []V:
		if t == nil {
			return t
		}
		r := []V{}
		for _, x := range t {
			r = append(r, settle(x))
		}
		return r
	case *Obj:
		o := newObj()
		for _, k := range t.Keys {
			o.Set(k, settle(t.Vals[k]))
		}
		return o
	}
	return v
}

// modelProgram runs the program in the model.
func modelProgram(env *Env, sts []*St) (res [][]V, m *M, why string) {
	m = newModel()
	why = tryModel(func() {
		sc := env.scope()
		for _, s := range sts {
			rows := m.exec(s, sc)
			for i, r := range rows {
				rows[i] = settle(r)
			}
			res = append(res, rows)
		}
	})
	return res, m, why
}

// recursive tells whether a definition may be defined by itself. Where the
// model only evaluates the columns and rows it needs, the engine may evaluate
// more, which takes exponential time if they recurse (see C11).
func recursive(sts []*St) bool {
	uses := map[string]map[string]bool{}
	for _, s := range sts {
		if s.Let == "" || s.Op == "<=" {
			continue
		}
		if uses[s.Let] == nil {
			uses[s.Let] = map[string]bool{}
		}
		add := func(name string) { uses[s.Let][strings.Split(name, ".")[0]] = true }
		walkSt(s, func(e *E) {
			if e.K == "sym" || e.K == "call" {
				add(e.S)
			}
		})
		walkQueries(s.Q, func(q *Q) { add(q.From.Name) })
		walkSt(s, func(e *E) {
			if e.Q != nil {
				walkQueries(e.Q, func(q *Q) { add(q.From.Name) })
			}
			for _, a := range e.P {
				if a.Q != nil {
					walkQueries(a.Q, func(q *Q) { add(q.From.Name) })
				}
			}
		})
		for _, p := range s.Params {
			if p.Def != nil && p.Def.Q != nil {
				walkQueries(p.Def.Q, func(q *Q) { add(q.From.Name) })
			}
		}
	}
	for name := range uses {
		seen := map[string]bool{}
		var visit func(n string)
		visit = func(n string) {
			for x := range uses[n] {
				if !seen[x] {
					seen[x] = true
					visit(x)
				}
			}
		}
		visit(name)
		if seen[name] {
			return true
		}
	}
	return false
}

// differ compares the model and the code under test on a program.
func differ(r *R, env *Env, sts []*St) (want [][]V, m *M, run *Run, ok bool) {
	if recursive(sts) {
		r.Class("undefined: recursive query")
		return nil, nil, nil, false
	}
	want, m, why := modelProgram(env, sts)
	if why != "" {
		r.Class("undefined: " + why)
		return nil, nil, nil, false
	}
	got, run := runProgram(r, env, sts)
	for i, s := range sts {
		if s.Let == "" && !sameRows(want[i], got[i]) {
			r.Failf("statement %d gives the wrong rows.\nprogram:\n%s\nenv: %s\nexpected %d rows:\n%s\ngot %d rows:\n%s",
				i, program(sts), show(env.obj()), len(want[i]), showRows(want[i]), len(got[i]), showRows(got[i]))
		}
		if s.Let != "" && len(got[i]) != 0 {
			r.Failf("a LET emitted rows:\n%s", s.String())
		}
	}
	return want, m, run, true
}
