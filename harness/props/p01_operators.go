package props

import "pgregory.net/rapid"

type exprCase struct {
	Env   *Env
	Exprs []*E
	Rows  bool `json:",omitempty"` // evaluated for each of the rows
}

func exprPrograms(c *exprCase) []*St {
	q := &Q{From: fromCall("scope")}
	if c.Rows {
		q.From = &From{Name: "rows"}
	}
	for i, e := range c.Exprs {
		q.Cols = append(q.Cols, cE(e, "c"+itoa(i)))
	}
	return []*St{{Q: q}}
}

func countOps(e *E) map[string]int {
	n := map[string]int{}
	walkE(e, func(x *E) {
		switch x.K {
		case "and", "or", "add", "mul":
			for _, o := range x.Ops {
				n[o]++
			}
		case "cmp":
			n[x.S]++
		case "not":
			n["NOT"]++
		case "mem":
			n["member"]++
		}
		if x.Neg {
			n["neg"]++
		}
	})
	return n
}

func checkExprs(r *R, c *exprCase) {
	_, _, _, ok := differ(r, c.Env, exprPrograms(c))
	if !ok {
		return
	}
	kinds := map[string]bool{}
	for _, e := range c.Exprs {
		for k, v := range countOps(e) {
			r.Count("op "+k, v)
			kinds[k] = true
		}
	}
	want, _, _ := modelProgram(c.Env, exprPrograms(c))
	nonNull := false
	for _, k := range want[0][0].(*Obj).Keys {
		switch t := want[0][0].(*Obj).Vals[k].(type) {
		case nil:
			r.Count("result NULL", 1)
		case bool:
			r.Count("result bool "+show(t), 1)
			nonNull = true
		default:
			r.Count("result other", 1)
			nonNull = true
		}
	}
	r.NonTrivialIf(len(kinds) >= 2 && nonNull)
}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "Random typed expression trees over every operator, all literal forms, and variables of every type, rendered with the fewest " +
			"parentheses the precedence rules allow; non-trivial: at least two different operators and a result that is not NULL. " +
			"regex: many generated regular expressions in one scope, matched with texts and lists (non-trivial: two expressions, a match and none).",
		Assumptions: []string{"integer arithmetic wraps at 64 bits", "float arithmetic is IEEE double precision", "regexp of Go's library"},
		Arms: []*Arm{
			arm("regex", 6000, 150000, func(t *rapid.T) *regexCase { return genRegex(newG(t)) }, checkRegex),
			arm("expr", 30000, 600000, func(t *rapid.T) *exprCase {
				g := newG(t)
				c := &exprCase{Env: g.stdEnv()}
				n := g.n(1, 4)
				for i := 0; i < n; i++ {
					c.Exprs = append(c.Exprs, g.expr("any", g.n(1, 4)))
				}
				return c
			}, checkExprs),
		},
	})
}
