package props

import "pgregory.net/rapid"

func checkLet(r *R, c *progCase) {
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := countRows(want)
	r.Count("rows", n)
	lets, used := map[string]bool{}, 0
	for _, s := range c.Sts {
		if s.Let != "" {
			lets[s.Let] = true
			if s.Op == "=" {
				r.Count("lazy", 1)
			} else {
				r.Count("materialized", 1)
			}
			if len(s.Params) > 0 {
				r.Count("parameters", 1)
			}
		}
		walkSt(s, func(e *E) {
			if (e.K == "sym" || e.K == "call") && lets[e.S] {
				used++
			}
		})
		walkQueries(s.Q, func(q *Q) {
			if lets[q.From.Name] {
				used++
			}
		})
	}
	r.NonTrivialIf(used > 0 && n >= 1)
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "Random programs of lazy and materialized LETs of expressions and queries, with parameters and defaults, using and masking each other, " +
			"followed by queries, and of small definitions with free names found where they are used (rows, aliases, parameters), and of results of thousands of rows stored in any place; non-trivial: a definition is used and a row is produced.",
		Arms: []*Arm{
			arm("let", 20000, 500000, func(t *rapid.T) *progCase {
				g := newG(t)
				g.rich = true
				c := &progCase{Env: g.stdEnv()}
				names := []string{"X", "Y", "Z", "T", "X", "i", "u v"}
				for n := g.n(1, 5); n > 0; n-- {
					name := names[g.n(0, len(names)-1)]
					if g.chance(50) {
						c.Sts = append(c.Sts, g.tableLet(name, g.n(0, 1), qopt{nested: true, limit: true}))
					} else {
						c.Sts = append(c.Sts, g.exprLet(name, g.pick("int", "num", "str", "bool", "list", "obj"), g.n(0, 2)))
					}
				}
				for n := g.n(1, 2); n > 0; n-- {
					q, _ := g.query(g.n(0, 1), qopt{nested: true, limit: true})
					c.Sts = append(c.Sts, &St{Q: q})
				}
				return c
			}, checkLet),
			arm("scoping", 40000, 800000, genScoping, checkLet),
			arm("large", 150, 2500, genLarge, checkLarge),
		},
	})
}
