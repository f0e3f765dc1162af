package props

import "pgregory.net/rapid"

func checkGroup(r *R, c *progCase) {
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := countRows(want)
	r.Count("rows", n)
	groups, aggs := false, 0
	for _, s := range c.Sts {
		walkQueries(s.Q, func(q *Q) { groups = groups || len(q.Group) > 0 })
		walkSt(s, func(e *E) {
			if e.K == "call" && aggNames[e.S] {
				aggs++
				r.Count("aggregate "+e.S, 1)
			}
		})
	}
	if groups {
		r.Class("grouped")
	} else {
		r.Class("running")
	}
	r.NonTrivialIf(aggs > 0 && n >= 1)
}

// walkQueries visits every query below a query.
func walkQueries(q *Q, f func(*Q)) {
	if q == nil {
		return
	}
	f(q)
	args := func(as []*Arg) {
		for _, a := range as {
			walkQueries(a.Q, f)
		}
	}
	args(q.From.P)
	for _, c := range q.Cols {
		walkQueries(c.Q, f)
	}
	walkQ(q, func(e *E) {
		if e.K == "call" {
			args(e.P)
		}
	})
}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "Random GROUP BY queries (one or two keys of every type, filters, several aggregate functions per query, nested grouped sources) and " +
			"running aggregates without GROUP BY; non-trivial: at least one aggregate and one row.",
		Arms: []*Arm{
			arm("group", 40000, 1000000, func(t *rapid.T) *progCase {
				g := newG(t)
				c := &progCase{Env: g.stdEnv()}
				q, _ := g.query(g.n(0, 1), qopt{nested: g.chance(50), group: true, agg: true})
				c.Sts = []*St{{Q: q}}
				if g.chance(20) {
					// Once more: every statement starts afresh or goes on
					// exactly like the model says.
					c.Sts = append(c.Sts, &St{Q: q})
				}
				return c
			}, checkGroup),
			arm("keys", 15000, 300000, func(t *rapid.T) *progCase {
				// The bins of two columns with few, confusable values.
				g := newG(t)
				c := &progCase{Env: &Env{}}
				rows := &Val{K: "list"}
				for n := g.n(0, 8); n > 0; n-- {
					o := &Val{K: "obj", Keys: []string{"a", "b"}}
					for i := 0; i < 2; i++ {
						switch g.n(0, 5) {
						case 0:
							o.L = append(o.L, vNil())
						case 1:
							l := &Val{K: "list"}
							for j := g.n(0, 2); j > 0; j-- {
								l.L = append(l.L, vStr(g.pick("a", "b", "a b", "")))
							}
							o.L = append(o.L, l)
						case 2:
							o.L = append(o.L, vFloat(float64(g.n(0, 2))/2))
						default:
							o.L = append(o.L, vStr(g.pick("", "a", "b", "a b", "b a", " ", "a]", "\"", "a\" \"b", "Null x")))
						}
					}
					rows.L = append(rows.L, o)
				}
				c.Env.add("rows", rows)
				q := &Q{Cols: []*Col{cE(eSym("a"), "a"), cE(eSym("b"), "b"), cE(eCall("count"), "n")}, From: from("rows")}
				q.Group = []*E{eSym("a")}
				if g.chance(70) {
					q.Group = append(q.Group, eSym("b"))
				}
				c.Sts = []*St{{Q: q}}
				return c
			}, checkGroup),
		},
	})
}
