package props

import (
	"context"
	"sync"
	"testing/synctest"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/explain"
	"www.velocidex.com/golang/vfilter/types"
)

// EXPLAIN: an explainer is told what the explained queries do, and changes
// nothing.

// witness is an explainer which counts what it is told.
type witness struct {
	mu           sync.Mutex
	log          types.Explainer // also told
	starts, args int
	in, out, rej int
	rows         map[string]int
}

func (self *witness) StartQuery(node interface{}) {
	self.mu.Lock()
	self.starts++
	self.mu.Unlock()
	if self.log != nil {
		self.log.StartQuery(node)
	}
}

func (self *witness) PluginOutput(node interface{}, row types.Row) {
	self.mu.Lock()
	self.in++
	self.mu.Unlock()
	if self.log != nil {
		self.log.PluginOutput(node, row)
	}
}

func (self *witness) SelectOutput(row types.Row) {
	self.mu.Lock()
	self.out++
	self.rows[show(canon(row))]++
	self.mu.Unlock()
	if self.log != nil {
		self.log.SelectOutput(row)
	}
}

func (self *witness) ParseArgs(args *ordereddict.Dict, result interface{}, err error) {
	self.mu.Lock()
	self.args++
	self.mu.Unlock()
	if self.log != nil {
		self.log.ParseArgs(args, result, err)
	}
}

func (self *witness) RejectRow(node interface{}) {
	self.mu.Lock()
	self.rej++
	self.mu.Unlock()
	if self.log != nil {
		self.log.RejectRow(node)
	}
}

func (self *witness) Log(message string) {}

type explainCase struct {
	Env     *Env
	Sts     []*St
	Logging bool   // with the LoggingExplainer
	Within  string // evaluated in a scope made from the one of the explainer: "copy", "new" or "clear"
}

func checkExplain(r *R, c *explainCase) {
	if recursive(c.Sts) {
		r.Class("undefined: recursive query")
		return
	}
	want, m, why := modelProgram(c.Env, c.Sts)
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	text := program(c.Sts)
	w := &witness{rows: map[string]int{}}
	got := [][]V{}
	msg := inBubble(r.T, func() {
		run := newRealScope(c.Env)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		if c.Logging {
			w.log = explain.NewLoggingExplainer(run.Scope)
		}
		run.Scope.SetExplainer(w)
		outer := run.Scope
		switch c.Within {
		case "copy":
			run.Scope = outer.Copy()
		case "clear":
			run.Scope.ClearContext()
		case "new":
			run.Scope = outer.NewScope()
			run.Scope.AppendVars(c.Env.dict())
		}
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{err.Error() + "\n" + text})
		}
		for i, v := range vqls {
			before := *w
			rows := drain(run, v)
			synctest.Wait() // behind a LIMIT one more row may still be evaluated
			got = append(got, rows)
			after := *w
			if !c.Sts[i].explained() && after.starts+after.args+after.in+after.out+after.rej !=
				before.starts+before.args+before.in+before.out+before.rej {
				panic(failure{"statement " + itoa(i) + " is explained without EXPLAIN\n" + text})
			}
		}
		run.Scope.Close()
		outer.Close()
	})
	if msg != "" {
		r.Failf("%s\nprogram:\n%s\nenv: %s", msg, text, show(c.Env.obj()))
	}
	explained := false
	for i, s := range c.Sts {
		if !sameRows(want[i], got[i]) {
			r.Failf("statement %d gives the wrong rows.\nprogram:\n%s\nenv: %s\nexpected %d rows:\n%s\ngot %d rows:\n%s",
				i, text, show(c.Env.obj()), len(want[i]), showRows(want[i]), len(got[i]), showRows(got[i]))
		}
		if s.explained() {
			explained = true
			for _, row := range got[i] {
				if w.rows[show(row)]--; w.rows[show(row)] < 0 {
					r.Failf("the explainer was not told of the row %s of statement %d.\nprogram:\n%s\nenv: %s", show(row), i, text, show(c.Env.obj()))
				}
			}
		}
	}
	if explained && w.starts == 0 {
		r.Failf("the explainer was not told of the start of a query.\nprogram:\n%s", text)
	}
	if m.Ahead {
		r.Class("not counted: a query which ends early")
		return
	}
	if w.in != m.In || w.out != m.Out || w.rej != m.Rej {
		r.Failf("the explainer was told of %d rows of plugins, %d rows of queries and %d rejected, expected %d, %d and %d.\nprogram:\n%s\nenv: %s",
			w.in, w.out, w.rej, m.In, m.Out, m.Rej, text, show(c.Env.obj()))
	}
	r.Count("rows of plugins", m.In)
	r.Count("rows of queries", m.Out)
	r.Count("rows rejected", m.Rej)
	r.NonTrivialIf(m.In > 1 && m.Out > 0)
}

func (s *St) explained() bool { return s.Q != nil && s.Let == "" && s.Q.Explain }

func init() {
	register(&Prop{
		ID: "C22",
		Rule: "Random programs of definitions and queries, some with EXPLAIN, with an explainer which counts what it is told, " +
			"half of them also with the LoggingExplainer; non-trivial: two rows of plugins and one of a query are explained.",
		Arms: []*Arm{
			arm("explain", 20000, 400000, func(t *rapid.T) *explainCase {
				g := newG(t)
				g.rich = g.chance(40)
				c := &explainCase{Env: g.stdEnv(), Logging: g.chance(50), Within: g.pick("", "", "copy", "new", "clear")}
				names := []string{"X", "Y", "Z"}
				for k := g.n(0, 2); k > 0; k-- {
					if g.chance(50) {
						c.Sts = append(c.Sts, g.tableLet(names[k], g.n(0, 1), qopt{nested: true}))
					} else {
						c.Sts = append(c.Sts, g.exprLet(names[k], g.pick("int", "str", "bool", "list"), g.n(1, 2)))
					}
				}
				for k := g.n(1, 2); k > 0; k-- {
					var q *Q
					if g.chance(60) {
						q, _ = g.query(g.n(0, 2), qopt{nested: true, group: g.chance(40), agg: g.chance(30), limit: g.chance(10)})
					} else {
						q, _ = g.plugQuery(g.n(1, 2))
					}
					q.Explain = g.chance(75)
					c.Sts = append(c.Sts, &St{Q: q})
				}
				return c
			}, checkExplain),
		},
	})
}
