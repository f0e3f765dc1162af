package props

import "pgregory.net/rapid"

func countRows(res [][]V) int {
	n := 0
	for _, x := range res {
		n += len(x)
	}
	return n
}

// sourceRows counts the rows a query without its filter would give.
func checkSelect(r *R, c *progCase) {
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := countRows(want)
	r.Count("rows", n)
	where, star, limit := false, false, false
	for _, s := range c.Sts {
		if s.Q == nil {
			continue
		}
		where = where || s.Q.Where != nil
		star = star || s.Q.hasStar()
		limit = limit || s.Q.Limit != nil
	}
	if where {
		r.Class("filtered")
	}
	if star {
		r.Class("star")
	}
	if limit {
		r.Class("limited")
	}
	r.NonTrivialIf(n >= 1)
}

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "Random SELECT statements over random tables: any mix of *, repeated and aliased columns, filters over source columns and aliases, " +
			"nested sources and LIMIT; non-trivial: at least one row is produced.",
		Arms: []*Arm{
			arm("select", 80000, 1000000, func(t *rapid.T) *progCase {
				g := newG(t)
				c := &progCase{Env: g.stdEnv()}
				q, _ := g.query(g.n(0, 2), qopt{limit: true, nested: g.chance(50)})
				c.Sts = []*St{{Q: q}}
				return c
			}, checkSelect),
		},
	})
}
