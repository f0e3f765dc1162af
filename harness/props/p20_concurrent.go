package props

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Concurrent use: a parsed query may be evaluated by many goroutines at once,
// in one scope, in copies of it and in scopes of their own.

type concCase struct {
	Envs     []*Env // one, or one for each goroutine
	Sts      []*St
	N        int    // goroutines
	Rounds   int    // evaluations of each
	Mode     string // scopes, copies, same
	AnyOrder bool   // the rows come in any order
}

func genConc(t *rapid.T) *concCase {
	g := newG(t)
	g.rich = g.chance(50)
	c := &concCase{N: g.n(2, 5), Rounds: g.n(1, 2), Mode: g.pick("scopes", "copies", "same")}
	if g.chance(25) {
		g.workers = []string{"workers"}
		c.AnyOrder = true
	}
	c.Envs = []*Env{g.stdEnv()}
	names := []string{"X", "Y", "Z", "T"}
	for n := g.n(0, 3); n > 0; n-- {
		name := names[g.n(0, len(names)-1)]
		if g.chance(50) {
			c.Sts = append(c.Sts, g.tableLet(name, g.n(0, 1), qopt{nested: true}))
		} else {
			c.Sts = append(c.Sts, g.exprLet(name, g.pick("int", "num", "str", "bool", "list", "obj"), g.n(0, 2)))
		}
	}
	if g.chance(40) {
		g.extra = append(g.extra, func(ty string, depth int) *E { return g.fnCall(ty, depth) })
	}
	var q *Q
	if c.AnyOrder || g.chance(50) {
		q, _ = g.plugQuery(g.n(1, 2))
	} else {
		order := g.chance(20)
		c.AnyOrder = order
		q, _ = g.query(g.n(0, 2), qopt{nested: true, order: order, group: g.chance(40), agg: c.Mode == "scopes" && g.chance(40)})
	}
	c.Sts = append(c.Sts, &St{Q: q})
	if c.Mode == "scopes" {
		for len(c.Envs) < c.N {
			c.Envs = append(c.Envs, g.stdEnv())
		}
	}
	return c
}

func checkConc(r *R, c *concCase) {
	if recursive(c.Sts) {
		r.Class("undefined: recursive query")
		return
	}
	wants := [][]V{}
	rows := 0
	last := len(c.Sts) - 1
	for _, env := range c.Envs {
		want, _, why := modelProgram(env, c.Sts)
		if why != "" {
			r.Class("undefined: " + why)
			return
		}
		wants = append(wants, want[last])
		rows += len(want[last])
	}
	got := make([][][]V, c.N)
	text := program(c.Sts)
	msg := inBubble(r.T, func() {
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{"the program does not parse: " + err.Error() + "\n" + text})
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		root := newRealScope(c.Envs[0])
		root.Ctx = ctx
		if c.Mode != "scopes" {
			for _, v := range vqls[:last] {
				drain(root, v)
			}
		}
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := 0; i < c.N; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for k := 0; k < c.Rounds; k++ {
					run := &Run{Ctx: ctx, Scope: root.Scope}
					switch c.Mode {
					case "scopes":
						run = newRealScope(c.Envs[i])
						run.Ctx = ctx
						for _, v := range vqls[:last] {
							drain(run, v)
						}
					case "copies":
						run.Scope = root.Scope.Copy()
					}
					got[i] = append(got[i], drain(run, vqls[last]))
					if c.Mode != "same" {
						run.Scope.Close()
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		root.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s\nmode %s, program:\n%s\nenv: %s", msg, c.Mode, text, show(c.Envs[0].obj()))
	}
	for i := range got {
		want, env := wants[0], c.Envs[0]
		if c.Mode == "scopes" {
			want, env = wants[i], c.Envs[i]
		}
		for k, rows := range got[i] {
			same := sameRows(want, rows)
			if c.AnyOrder {
				same = sameMultiset(want, rows)
			}
			if !same {
				r.Failf("goroutine %d of %d, evaluation %d, got the wrong rows (%s).\nprogram:\n%s\nenv: %s\nexpected %d rows:\n%s\ngot %d rows:\n%s",
					i, c.N, k, c.Mode, text, show(env.obj()), len(want), showRows(want), len(rows), showRows(rows))
			}
		}
	}
	r.Count("mode "+c.Mode, 1)
	r.Count("rows", rows)
	r.NonTrivialIf(rows > 0)
}

// scopeOp is an operation on the current scope of a goroutine.
type scopeOp struct {
	Op string
	A  int
}

type concScopeCase struct {
	Ops [][]scopeOp // of each goroutine
}

func genConcScopes(t *rapid.T) *concScopeCase {
	g := newG(t)
	c := &concScopeCase{}
	ops := []string{"copy", "copy", "copy", "close", "close", "var", "var", "mask", "resolve", "resolve", "other", "context", "seecontext",
		"dtor", "dtor", "count", "count", "ownagg", "log", "look", "new", "query", "rootvar", "rootdtor"}
	for n := g.n(2, 5); n > 0; n-- {
		l := []scopeOp{}
		for k := g.n(1, 25); k > 0; k-- {
			l = append(l, scopeOp{ops[g.n(0, len(ops)-1)], g.n(0, 5)})
		}
		c.Ops = append(c.Ops, l)
	}
	return c
}

// concScope is one scope in the stack of a goroutine.
type concScope struct {
	s     types.Scope
	vars  map[string]int64
	dtors []*int32
	agg   *int64 // of its own
}

func checkConcScopes(r *R, c *concScopeCase) {
	var problems []string
	var mu sync.Mutex
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		run.Scope.AppendVars(ordereddict.NewDict().Set("s", int64(-1)))
		vql, err := vfilter.Parse("SELECT s FROM scope()")
		if err != nil {
			panic(failure{err.Error()})
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var total int64
		rootDtors := []*int32{}
		start := make(chan bool)
		var wg sync.WaitGroup
		for i, ops := range c.Ops {
			wg.Add(1)
			go func(i int, ops []scopeOp) {
				defer wg.Done()
				step := 0
				bad := func(f string, a ...interface{}) {
					mu.Lock()
					problems = append(problems, fmt.Sprintf("goroutine %d, operation %d %v: ", i, step, ops[step])+fmt.Sprintf(f, a...))
					mu.Unlock()
				}
				<-start
				stack := []*concScope{{s: run.Scope, vars: map[string]int64{"s": -1}}}
				contexts := map[string]int64{}
				for n, op := range ops {
					step = n
					cur := stack[len(stack)-1]
					own := len(stack) > 1
					val := int64(i*1000 + n)
					add := func(cs *concScope, name string) {
						cs.s.AppendVars(ordereddict.NewDict().Set(name, val))
						cs.vars[name] = val
					}
					dtor := func(cs *concScope) *int32 {
						x := new(int32)
						if err := cs.s.AddDestructor(func() { atomic.AddInt32(x, 1) }); err != nil {
							bad("refused: %v", err)
						}
						return x
					}
					switch op.Op {
					case "copy":
						vars := map[string]int64{}
						for k, v := range cur.vars {
							vars[k] = v
						}
						stack = append(stack, &concScope{s: cur.s.Copy(), vars: vars})
					case "close":
						if !own {
							continue
						}
						cur.s.Close()
						for _, x := range cur.dtors {
							if k := atomic.LoadInt32(x); k != 1 {
								bad("a destructor ran %d times", k)
							}
						}
						stack = stack[:len(stack)-1]
					case "var":
						if own {
							add(cur, fmt.Sprintf("v%d_%d", i, op.A))
						}
					case "mask":
						if own {
							add(cur, "s")
						}
					case "rootvar":
						add(stack[0], fmt.Sprintf("r%d_%d", i, op.A))
					case "resolve":
						names := map[string]bool{}
						for k := range cur.vars {
							names[k] = true
						}
						for _, k := range sortedKeys(names) {
							v, ok := cur.s.Resolve(k)
							if !ok || v != cur.vars[k] {
								bad("%s is %v (%v), expected %v", k, v, ok, cur.vars[k])
							}
						}
					case "other":
						for j := range c.Ops {
							name := fmt.Sprintf("v%d_%d", j, op.A)
							if _, mine := cur.vars[name]; !mine {
								if v, ok := cur.s.Resolve(name); ok {
									bad("%s is %v, but it is not visible here", name, v)
								}
							}
						}
					case "context":
						k := fmt.Sprintf("c%d_%d", i, op.A)
						cur.s.SetContext(k, val)
						contexts[k] = val
					case "seecontext":
						for k, want := range contexts {
							if v, ok := cur.s.GetContext(k); !ok || v != want {
								bad("context %s is %v (%v), expected %v", k, v, ok, want)
							}
						}
					case "dtor":
						if own {
							cur.dtors = append(cur.dtors, dtor(cur))
						}
					case "rootdtor":
						x := dtor(stack[0])
						mu.Lock()
						rootDtors = append(rootDtors, x)
						mu.Unlock()
					case "count":
						var agg *int64
						for k := len(stack) - 1; k > 0 && agg == nil; k-- {
							agg = stack[k].agg
						}
						got := cur.s.GetAggregatorCtx().Modify("n", func(old types.Any, pres bool) types.Any {
							x, _ := old.(int64)
							return x + 1
						})
						if agg == nil {
							atomic.AddInt64(&total, 1)
						} else if *agg++; got != *agg {
							bad("the aggregate is %v, expected %v", got, *agg)
						}
					case "ownagg":
						if own {
							cur.s.SetAggregatorCtx(nil)
							cur.agg = new(int64)
						}
					case "log":
						cur.s.Log("goroutine %d", i)
					case "look":
						if d := cur.s.(interface{ StackDepth() int }).StackDepth(); d != len(stack)-1 {
							bad("depth %d, expected %d", d, len(stack)-1)
						}
						if cur.s.CheckForOverflow() {
							bad("overflow")
						}
						if cur.s.IsClosed() {
							bad("closed")
						}
						cur.s.PrintVars()
						cur.s.GetStats().Snapshot()
						if _, ok := cur.s.GetFunction("len"); !ok {
							bad("no function len")
						}
					case "new":
						n := cur.s.NewScope()
						if v, ok := n.Resolve("s"); ok {
							bad("a new scope sees s = %v", v)
						}
						n.Close()
					case "query":
						for row := range vql.Eval(ctx, cur.s) {
							v, _ := cur.s.Associative(row, "s")
							if v != cur.vars["s"] {
								bad("the query sees s = %v, expected %v", v, cur.vars["s"])
							}
						}
					}
				}
				step = len(ops) - 1
				for k := len(stack) - 1; k > 0; k-- {
					// Half of them are closed by the root.
					if i%2 == 0 {
						stack[k].s.Close()
					}
					mu.Lock()
					rootDtors = append(rootDtors, stack[k].dtors...)
					mu.Unlock()
				}
			}(i, ops)
		}
		close(start)
		wg.Wait()
		if n := run.Scope.GetAggregatorCtx().Modify("n", func(old types.Any, pres bool) types.Any {
			x, _ := old.(int64)
			return x
		}); n != total {
			problems = append(problems, fmt.Sprintf("the aggregate is %v after %v updates", n, total))
		}
		run.Scope.Close()
		for _, x := range rootDtors {
			if k := atomic.LoadInt32(x); k != 1 {
				problems = append(problems, fmt.Sprintf("a destructor ran %d times", k))
			}
		}
	})
	if msg != "" {
		r.Failf("%s\noperations: %v", msg, c.Ops)
	}
	if len(problems) > 0 {
		r.Failf("%s\noperations: %v", strings.Join(problems, "\n"), c.Ops)
	}
	n := 0
	for _, ops := range c.Ops {
		n += len(ops)
	}
	r.Count("operations", n)
	r.NonTrivialIf(n > 10)
}

func init() {
	register(&Prop{
		ID: "C20",
		Rule: "Random programs parsed once and evaluated by several goroutines at once, in one scope, in copies of it or in scopes with other variables, " +
			"and random operations on scopes shared by several goroutines; queries which are cancelled, destructors and response channels as in C14, C15 and C21; all under the race detector. " +
			"Non-trivial: a row is produced, ten operations, or as there.",
		Arms: []*Arm{
			arm("shared", 3000, 40000, genConc, checkConc),
			arm("scopes", 3000, 60000, genConcScopes, checkConcScopes),
			arm("cancel", 1500, 20000, genCancel, checkCancel),
			arm("destructors", 1500, 20000, genRaceDtors, checkRaceDtors),
			arm("responses", 1500, 20000, genResp, checkResp),
			arm("lambdas", 1500, 20000, func(t *rapid.T) *lambdaCase {
				c := genLambda(t)
				c.N, c.Mode = rapid.IntRange(2, 4).Draw(t, "n"), rapid.SampledFrom([]string{"same", "copies"}).Draw(t, "mode")
				return c
			}, checkLambda),
		},
	})
}
