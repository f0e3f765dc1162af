package props

import (
	"fmt"

	"pgregory.net/rapid"
)

// Evaluation counts: each expression is evaluated when it is needed, and only
// once for each row.

// count wraps expressions of a program so that they count their evaluations.
func (g *G) count(sts []*St) {
	all := []*E{}
	keep := map[*E]bool{}
	for _, s := range sts {
		walkSt(s, func(e *E) { all = append(all, e) })
		walkQueries(s.Q, func(q *Q) {
			for _, c := range q.Cols {
				if c.As == "" && c.E != nil {
					keep[c.E] = true
				}
			}
		})
		walkSt(s, func(e *E) {
			for _, q := range e.queries() {
				walkQueries(q, func(q *Q) {
					for _, c := range q.Cols {
						if c.As == "" && c.E != nil {
							keep[c.E] = true
						}
					}
				})
			}
		})
	}
	p := g.n(10, 70)
	for i, e := range all {
		if keep[e] || !g.chance(p) {
			continue
		}
		keep[e] = true
		x := *e
		*e = *eCall("track", aE("id", eStr(fmt.Sprintf("t%d", i))), aE("v", &x))
	}
}

// queries are the queries directly in an expression.
func (e *E) queries() []*Q {
	r := []*Q{}
	if e.Q != nil {
		r = append(r, e.Q)
	}
	for _, a := range e.P {
		if a.Q != nil {
			r = append(r, a.Q)
		}
	}
	return r
}

func genLazy(t *rapid.T) *progCase {
	g := newG(t)
	c := g.lazyProgram()
	g.count(c.Sts)
	return c
}

// lazyProgram is a program with parts which may not be evaluated.
func (g *G) lazyProgram() *progCase {
	c := &progCase{Env: g.stdEnv()}
	g.rich = g.chance(40)
	g.extra = append(g.extra, func(ty string, depth int) *E { return g.ifCall(ty, depth) })
	names := []string{"X", "Y", "Z"}
	for k := g.n(0, 2); k > 0; k-- {
		if g.chance(50) {
			c.Sts = append(c.Sts, g.tableLet(names[k], g.n(0, 1), qopt{nested: true}))
		} else {
			c.Sts = append(c.Sts, g.exprLet(names[k], g.pick("int", "str", "bool", "list"), g.n(1, 2)))
		}
	}
	var q *Q
	if g.chance(50) {
		q, _ = g.query(g.n(0, 2), qopt{nested: true, group: g.chance(30), agg: g.chance(30)})
	} else {
		q, _ = g.plugQuery(g.n(1, 2))
	}
	c.Sts = append(c.Sts, &St{Q: q})
	return c
}

func checkLazy(r *R, c *progCase) {
	want, m, run, ok := differ(r, c.Env, c.Sts)
	if ok {
		checkCounts(r, c, want, m, run)
	}
}

// With workers the rows come in any order.
func checkLazyWorkers(r *R, c *progCase) {
	if recursive(c.Sts) {
		r.Class("undefined: recursive query")
		return
	}
	want, m, why := modelProgram(c.Env, c.Sts)
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	got, run := runProgram(r, c.Env, c.Sts)
	if n := len(want) - 1; !sameMultiset(want[n], got[n]) {
		r.Failf("the wrong rows in any order.\nprogram:\n%s\nenv: %s\nexpected %d rows:\n%s\ngot %d rows:\n%s",
			program(c.Sts), show(c.Env.obj()), len(want[n]), showRows(want[n]), len(got[n]), showRows(got[n]))
	}
	checkCounts(r, c, want, m, run)
}

func checkCounts(r *R, c *progCase, want [][]V, m *M, run *Run) {
	if m.Ahead {
		r.Class("undefined: a query which ends early")
		return
	}
	ids := map[string]bool{}
	for k := range m.Track {
		ids[k] = true
	}
	for k := range run.Track.n {
		ids[k] = true
	}
	total := 0
	for _, k := range sortedKeys(ids) {
		if m.Track[k] != run.Track.n[k] {
			r.Failf("%s was evaluated %d times, expected %d\nprogram:\n%s\nenv: %s", k, run.Track.n[k], m.Track[k], program(c.Sts), show(c.Env.obj()))
		}
		total += m.Track[k]
	}
	r.Count("evaluations", total)
	r.NonTrivialIf(total >= 2 && countRows(want) >= 1)
}

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "Random programs of definitions, queries and plugins in which expressions at random places count their evaluations, also with workers; non-trivial: two evaluations and a row.",
		Arms: []*Arm{
			arm("counts", 40000, 600000, genLazy, checkLazy),
			arm("workers", 10000, 200000, func(t *rapid.T) *progCase {
				g := newG(t)
				g.workers = []string{"workers"}
				c := &progCase{Env: g.stdEnv()}
				for i := g.n(0, 2); i > 0; i-- {
					c.Sts = append(c.Sts, g.tableLet(g.pick("X", "Y"), 0, qopt{}))
				}
				q, _ := g.plugQuery(g.n(1, 3))
				c.Sts = append(c.Sts, &St{Q: q})
				g.count(c.Sts)
				return c
			}, checkLazyWorkers),
		},
	})
}
