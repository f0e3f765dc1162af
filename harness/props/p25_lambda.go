package props

import (
	"context"
	"fmt"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Lambdas: functions the host parses and calls.

type lambdaCase struct {
	Env  *Env
	Pre  []*St
	Ls   []*lambdaDef
	N    int // goroutines
	Mode string
	Post []*St // evaluated after the calls
}

type lambdaDef struct {
	Params []string
	Quote  int // how the text is written
	Body   *E
	Calls  [][]*Val
}

func (d *lambdaDef) text() string {
	names := []string{}
	for i, p := range d.Params {
		if (d.Quote>>uint(i))&1 != 0 {
			names = append(names, "`"+p+"`")
		} else {
			names = append(names, ident(p))
		}
	}
	sep, arrow := ",", "=>"
	if d.Quote&8 != 0 {
		sep, arrow = " ,\n ", " => "
	}
	if d.Quote&16 != 0 {
		arrow += "/* the body */ "
	}
	return strings.Join(names, sep) + arrow + d.Body.String()
}

// lambdas are those apply() knows, of the model and of the code.
var lambdas struct {
	defs  []*lambdaDef
	real  []*vfilter.Lambda
	model int // calls by the model
}

type applyFunc struct{}

func (self applyFunc) Copy() types.FunctionInterface { return self }
func (self applyFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "apply", FreeFormArgs: true}
}
func (self applyFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	params := []types.Any{}
	l := -1
	for _, k := range args.Keys() {
		v, _ := args.Get(k)
		lazy, ok := v.(types.LazyExpr)
		if ok {
			v = lazy.Reduce(ctx)
		}
		if k == "l" {
			n, ok := v.(int64)
			if !ok {
				return "bad lambda"
			}
			l = int(n)
			continue
		}
		params = append(params, v)
	}
	return lambdas.real[l].Reduce(ctx, scope, params)
}

func (m *M) lambda(d *lambdaDef, sc *Scope, vals []V) V {
	if len(vals) != len(d.Params) {
		return nil
	}
	lambdas.model++
	o := newObj()
	for i, p := range d.Params {
		o.Set(p, vals[i])
	}
	sub := sc.child()
	sub.push(objFrame{o})
	return m.eval(d.Body, sub)
}

func init() {
	extraFuncs["apply"] = func(m *M, sc *Scope, e *E, a *margs) V {
		vals := []V{}
		for _, n := range a.names[1:] {
			vals = append(vals, unmat(a.get(n)))
		}
		return m.lambda(lambdas.defs[a.get("l").(int64)], sc, vals)
	}
}

func checkLambda(r *R, c *lambdaCase) {
	sts := append(append([]*St{}, c.Pre...), c.Post...)
	if recursive(sts) {
		r.Class("undefined: recursive query")
		return
	}
	lambdas.defs, lambdas.model = c.Ls, 0
	defer func() { lambdas.defs = nil }()
	want := []V{}
	var rows [][]V
	m := newModel()
	why := tryModel(func() {
		sc := c.Env.scope()
		for _, s := range c.Pre {
			m.exec(s, sc)
		}
		for _, d := range c.Ls {
			for _, call := range d.Calls {
				vals := []V{}
				for _, v := range call {
					vals = append(vals, v.Model())
				}
				want = append(want, settle(m.lambda(d, sc, vals)))
			}
		}
		for _, s := range c.Post {
			l := m.exec(s, sc)
			for i, x := range l {
				l[i] = settle(x)
			}
			rows = append(rows, l)
		}
	})
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	texts := []string{}
	for _, d := range c.Ls {
		texts = append(texts, d.text())
	}
	show1 := func() string {
		return "lambdas:\n" + strings.Join(texts, "\n") + "\nprogram:\n" + program(sts) + "\nenv: " + show(c.Env.obj())
	}
	got := make([][]V, c.N)
	logged := ""
	var gotRows [][]V
	msg := inBubble(r.T, func() {
		run := newRealScope(c.Env)
		run.Scope.AppendFunctions(applyFunc{})
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		lambdas.real = nil
		for i, d := range c.Ls {
			l, err := vfilter.ParseLambda(texts[i])
			if err != nil {
				panic(failure{fmt.Sprintf("%q does not parse as a lambda: %v", texts[i], err)})
			}
			lambdas.real = append(lambdas.real, l)
			if s := l.GetParameters(); strings.Join(s, "\x00") != strings.Join(d.Params, "\x00") {
				panic(failure{fmt.Sprintf("the parameters of %q are %q", texts[i], s)})
			}
		}
		for _, s := range c.Pre {
			v, err := vfilter.Parse(s.String())
			if err != nil {
				panic(failure{err.Error() + "\n" + s.String()})
			}
			drain(run, v)
		}
		var wg sync.WaitGroup
		for n := 0; n < c.N; n++ {
			wg.Add(1)
			n := n
			work := func() {
				defer wg.Done()
				scope := run.Scope
				if c.Mode == "copies" {
					scope = scope.Copy()
					defer scope.Close()
				}
				for i, d := range c.Ls {
					for _, call := range d.Calls {
						vals := []types.Any{}
						for _, v := range call {
							vals = append(vals, v.Real())
						}
						got[n] = append(got[n], canon(lambdas.real[i].Reduce(ctx, scope, vals)))
					}
				}
			}
			if c.N == 1 {
				work()
			} else {
				go work()
			}
		}
		wg.Wait()
		logged = run.Log.String()
		for _, s := range c.Post {
			v, err := vfilter.Parse(s.String())
			if err != nil {
				panic(failure{err.Error() + "\n" + s.String()})
			}
			gotRows = append(gotRows, drain(run, v))
		}
		run.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, show1())
	}
	wrong, nonNull := 0, 0
	for n := range got {
		k := 0
		for _, d := range c.Ls {
			for _, call := range d.Calls {
				if !same(want[k], got[n][k]) {
					args := []V{}
					for _, v := range call {
						args = append(args, v.Model())
					}
					r.Failf("%q called with %v gives %v, expected %v\n%s", d.text(), show(args), show(got[n][k]), show(want[k]), show1())
				}
				if len(call) != len(d.Params) {
					wrong++
				} else if want[k] != nil {
					nonNull++
				}
				k++
			}
		}
	}
	if wrong > 0 && !strings.Contains(logged, "ncorrect number of parameters") {
		r.Failf("a call with the wrong number of parameters is not logged\n%s", show1())
	}
	for i := range rows {
		if !sameRows(rows[i], gotRows[i]) {
			r.Failf("after the calls, statement %d gives the wrong rows, expected\n%s\ngot\n%s\n%s", i, showRows(rows[i]), showRows(gotRows[i]), show1())
		}
	}
	r.Count("calls", lambdas.model)
	r.Count("calls with a wrong number of parameters", wrong)
	r.Count("results which are not NULL", nonNull)
	r.NonTrivialIf(nonNull > 0 && lambdas.model > 1)
}

func genLambda(t *rapid.T) *lambdaCase {
	g := newG(t)
	g.rich = g.chance(30)
	c := &lambdaCase{Env: g.stdEnv(), N: 1}
	if g.chance(25) {
		c.N = g.n(2, 4)
		c.Mode = g.pick("same", "copies")
	}
	for n := g.n(0, 2); n > 0; n-- {
		name := g.pick("X", "Y", "i", "d")
		if g.chance(40) {
			c.Pre = append(c.Pre, g.tableLet(name, g.n(0, 1), qopt{}))
		} else {
			c.Pre = append(c.Pre, g.exprLet(name, g.pick("int", "str", "list"), g.n(0, 2)))
		}
	}
	if g.chance(40) {
		g.extra = append(g.extra, g.fnCall)
	}
	type sig struct {
		ps []ColT
		ty string
	}
	sigs := []sig{}
	g.extra = append(g.extra, func(ty string, depth int) *E {
		if len(sigs) == 0 {
			return nil
		}
		i := g.n(0, len(sigs)-1)
		if s := sigs[i]; ty == s.ty || ty == "any" {
			e := eCall("apply", aE("l", eInt(i)))
			for k, p := range s.ps {
				e.P = append(e.P, aE("p"+itoa(k), g.expr(p.Ty, depth-1)))
			}
			if g.chance(5) {
				e.P = append(e.P, aE("more", eInt(1)))
			}
			return e
		}
		return nil
	})
	for n := g.n(1, 3); n > 0; n-- {
		d := &lambdaDef{Quote: g.n(0, 31)}
		s := sig{ty: g.pick("int", "str", "bool", "list", "obj", "num")}
		names := []string{"x", "y", "i", "s", "p q", "X", "a"}
		for k := g.n(1, 3); k > 0; k-- {
			p := g.pick(names...)
			if !has(d.Params, p) {
				d.Params = append(d.Params, p)
				s.ps = append(s.ps, ColT{p, g.pick("int", "str", "num", "list", "bool", "obj")})
			}
		}
		cols := append([]ColT{}, s.ps...)
		if g.chance(20) {
			cols = append(cols, rowCols...) // in a row of apply(), or unknown
		}
		g.with(cols, func() { d.Body = g.expr(s.ty, g.n(1, 3)) })
		for k := g.n(0, 3); k > 0; k-- {
			call := []*Val{}
			for _, p := range s.ps {
				ty := p.Ty
				if g.chance(15) {
					ty = g.pick("int", "str", "num", "list", "bool", "obj")
				}
				call = append(call, g.val(ty, 1))
			}
			if g.chance(8) {
				call = call[:len(call)-1]
			} else if g.chance(5) {
				call = append(call, g.val("int", 0))
			}
			d.Calls = append(d.Calls, call)
		}
		c.Ls = append(c.Ls, d)
		sigs = append(sigs, s)
	}
	if g.chance(60) {
		g.extraP = 40
		q, _ := g.query(g.n(0, 1), qopt{})
		c.Post = append(c.Post, &St{Q: q})
	}
	return c
}

func init() {
	register(&Prop{
		ID: "C25",
		Rule: "Random lambdas (one to three parameters, some of which need backticks or have the name of a variable, bodies of every kind of expression, also calls of other lambdas), called by the host with values of all types, " +
			"some with a wrong number of them, by one or more goroutines, and by a function of the host in rows of a query; non-trivial: at least two calls, one with a result which is not NULL.",
		Arms: []*Arm{arm("calls", 40000, 800000, genLambda, checkLambda)},
	})
}
