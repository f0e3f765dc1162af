package props

import "pgregory.net/rapid"

// rowsArg is anything foreach can iterate over.
func (g *G) rowsArg(name string, depth int) (*Arg, []ColT) {
	switch g.n(0, 9) {
	case 0:
		return aE(name, eSym("rows")), rowCols
	case 1:
		return aE(name, g.expr("list", 1)), []ColT{{"_value", "any"}}
	case 2:
		return aE(name, g.expr("obj", 1)), []ColT{{"a", "any"}, {"b", "any"}}
	case 3:
		return aE(name, g.expr("any", 1)), []ColT{{"_value", "any"}}
	case 4:
		args := []*E{}
		for n := g.n(1, 3); n > 0; n-- {
			args = append(args, g.expr(g.pick("int", "str", "obj"), 0))
		}
		return aArr(name, args...), []ColT{{"_value", "any"}}
	case 5:
		if len(g.tables) > 0 {
			t := g.tables[g.n(0, len(g.tables)-1)]
			if !t.Called {
				return aE(name, eSym(t.Name)), t.Cols
			}
			if len(t.Params) > 0 {
				if as := g.callArgs(t.Params, 1); len(as) > 0 {
					return aE(name, eCall(t.Name, as...)), t.Cols
				}
			}
		}
	}
	q, cols := g.plugQuery(depth - 1)
	return aQ(name, q), cols
}

// plugQuery is a query over a composition of plugins.
func (g *G) plugQuery(depth int) (*Q, []ColT) {
	q := &Q{}
	var cols []ColT
	q.From, cols = g.plug(depth)
	out := []ColT{}
	g.with(cols, func() {
		q.Cols = nil
		if q.From.Name != "scope" && g.chance(50) {
			q.Cols = append(q.Cols, cStar())
			out = append(out, cols...)
		}
		for i := g.n(0, 2); i > 0 || len(q.Cols) == 0; i-- {
			ty := g.pick("int", "str", "any", "list", "num")
			name := g.pick("x", "y", "z", "a", "_value")
			q.Cols = append(q.Cols, cE(g.expr(ty, g.n(0, 1)), name))
			out = append(out, ColT{name, ty})
		}
		if g.chance(30) {
			q.Where = g.expr("bool", 1)
		}
	})
	return q, out
}

func (g *G) plug(depth int) (*From, []ColT) {
	if depth <= 0 {
		return g.source(0, qopt{})
	}
	var f *From
	var cols []ColT
	switch g.n(0, 8) {
	case 0, 1, 2, 3:
		row, rc := g.rowsArg("row", depth)
		f = fromCall("foreach", row)
		if g.chance(20) {
			f.P = append(f.P, aE("column", eStr(g.pick("a", "b", "x", "_value", "zz"))))
			rc = nil
		}
		if g.chance(85) {
			g.with(rc, func() {
				var q *Arg
				q, cols = g.rowsArg("query", depth)
				f.P = append(f.P, q)
			})
		} else {
			cols = rc
		}
		if len(g.workers) > 0 && g.chance(70) {
			f.P = append(f.P, aE(g.workers[0], eInt(g.n(-1, 9))))
		} else if len(g.workers) > 0 && g.chance(20) {
			f.P = append(f.P, aE("async", eBool(true)))
		}
	case 4, 5:
		f = fromCall("chain")
		names := []string{"c", "b", "a", "u v"}
		for i, n := 0, g.n(1, 4); i < n; i++ {
			var a *Arg
			a, cols = g.rowsArg(names[i], depth)
			f.P = append(f.P, a)
		}
	case 6, 7:
		f = fromCall("if", aE("condition", g.expr(g.pick("bool", "any", "list"), 1)))
		if g.chance(15) {
			q, _ := g.plugQuery(0)
			f.P[0] = aQ("condition", q)
		}
		var a *Arg
		a, cols = g.rowsArg("then", depth)
		f.P = append(f.P, a)
		if g.chance(70) {
			a, _ = g.rowsArg("else", depth)
			f.P = append(f.P, a)
		}
	case 8:
		q, c := g.plugQuery(depth - 1)
		f, cols = fromCall("flatten", aQ("query", q)), c
	}
	if g.chance(20) {
		// Arguments are found by name.
		for i := len(f.P) - 1; i > 0 && f.Name != "chain"; i-- {
			j := g.n(0, i)
			f.P[i], f.P[j] = f.P[j], f.P[i]
		}
	}
	return f, cols
}

func pluginClasses(r *R, c *progCase) int {
	n := 0
	for _, s := range c.Sts {
		walkQueries(s.Q, func(q *Q) {
			if q.From.Call {
				r.Count("plugin "+q.From.Name, 1)
				if q.From.Name != "scope" && q.From.Name != "emit" && q.From.Name != "range" {
					n++
				}
			}
		})
	}
	return n
}

func checkPlugins(r *R, c *progCase) {
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := countRows(want)
	r.Count("rows", n)
	r.NonTrivialIf(pluginClasses(r, c) >= 1 && n >= 1)
}

// checkWorkers compares a program whose foreach() calls have workers with
// the sequential model: the rows are the same, in any order.
func checkWorkers(r *R, c *progCase) {
	want, _, why := modelProgram(c.Env, c.Sts)
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	got, _ := runProgram(r, c.Env, c.Sts)
	n := 0
	for i, s := range c.Sts {
		n += len(want[i])
		if !sameMultiset(want[i], got[i]) {
			r.Failf("statement %d gives the wrong rows in any order.\nprogram:\n%s\nenv: %s\nexpected %d rows:\n%s\ngot %d rows:\n%s",
				i, program(c.Sts), show(c.Env.obj()), len(want[i]), showRows(want[i]), len(got[i]), showRows(got[i]))
		}
		_ = s
	}
	workers := 0
	for _, s := range c.Sts {
		walkQueries(s.Q, func(q *Q) {
			for _, a := range q.From.P {
				if a.Name == "workers" || a.Name == "async" {
					workers++
				}
			}
		})
	}
	pluginClasses(r, c)
	r.NonTrivialIf(workers > 0 && n >= 2)
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "Random compositions (to depth 3) of foreach, chain, if, flatten and range over queries, stored and materialized queries, lists, rows and scalars; " +
			"a second arm gives foreach any number of workers and compares the rows in any order; non-trivial: a plugin is used and a row is produced (two rows with workers).",
		Arms: []*Arm{
			arm("plugins", 30000, 600000, func(t *rapid.T) *progCase {
				g := newG(t)
				c := &progCase{Env: g.stdEnv()}
				for i := g.n(0, 2); i > 0; i-- {
					c.Sts = append(c.Sts, g.tableLet(g.pick("X", "Y"), 0, qopt{}))
				}
				q, _ := g.plugQuery(g.n(1, 3))
				c.Sts = append(c.Sts, &St{Q: q})
				return c
			}, checkPlugins),
			arm("workers", 10000, 200000, func(t *rapid.T) *progCase {
				g := newG(t)
				g.workers = []string{"workers"}
				c := &progCase{Env: g.stdEnv()}
				q, _ := g.plugQuery(g.n(1, 3))
				c.Sts = append(c.Sts, &St{Q: q})
				return c
			}, checkWorkers),
		},
	})
}
