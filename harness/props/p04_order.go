package props

import (
	"math"

	"pgregory.net/rapid"
)

// keyKind classifies the values a column can be ordered by.
func keyKind(v V) string {
	switch t := v.(type) {
	case nil:
		return "null"
	case float64:
		if math.IsNaN(t) {
			return "other"
		}
		return "num"
	case bool, int64:
		return "num"
	case string:
		return "str"
	}
	return "other"
}

// checkOrder runs a query with ORDER BY: the rows are a permutation of the
// rows without it, in order; LIMIT keeps the first of them.
func checkOrder(r *R, c *progCase) {
	q := c.Sts[len(c.Sts)-1].Q
	plainQ := *q
	plainQ.Order, plainQ.Limit = "", nil
	all := append(append([]*St{}, c.Sts[:len(c.Sts)-1]...), &St{Q: &plainQ})
	want, _, why := modelProgram(c.Env, all)
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	rows := want[len(want)-1]
	kinds := map[string]bool{}
	for _, row := range rows {
		if _, ok := row.(*Obj); !ok {
			r.Class("undefined: not a row")
			return
		}
		kinds[keyKind(rowKey(row, q.Order))] = true
	}
	if kinds["other"] || (kinds["num"] && kinds["str"]) {
		r.Class("undefined: incomparable keys")
		return
	}
	res, _ := runProgram(r, c.Env, c.Sts)
	got := res[len(res)-1]
	n := len(rows)
	if q.Limit != nil && *q.Limit < n {
		n = *q.Limit
		r.Class("cut by LIMIT")
	}
	bad := func(what string) {
		r.Failf("%s.\nprogram:\n%s\nenv: %s\nrows without ORDER BY and LIMIT:\n%s\ngot %d rows:\n%s",
			what, program(c.Sts), show(c.Env.obj()), showRows(rows), len(got), showRows(got))
	}
	if len(got) != n {
		bad("the number of rows is wrong")
	}
	// The keys are those of the sorted rows.
	sorted := sortRows(rows, q.Order, q.Desc)
	count := map[string]int{}
	for _, x := range rows {
		count[show(x)]++
	}
	distinct := map[string]bool{}
	for i, x := range got {
		a, b := rowKey(x, q.Order), rowKey(sorted[i], q.Order)
		if !(a == nil && b == nil) && !eq(a, b) {
			bad("row " + itoa(i) + " is out of order")
		}
		distinct[show(a)] = true
		s := show(x)
		count[s]--
		if count[s] < 0 {
			bad("row " + itoa(i) + " is not one of the rows, or there too often")
		}
	}
	if q.Desc {
		r.Class("descending")
	}
	if len(distinct) < len(got) {
		r.Class("ties")
	}
	if kinds["null"] {
		r.Class("null keys")
	}
	r.Count("rows", len(got))
	r.NonTrivialIf(len(distinct) >= 2)
}

func init() {
	register(&Prop{
		ID: "C04",
		Rule: "Random queries with ORDER BY (ascending, descending; integer, float, boolean, string and NULL keys, ties, grouped and nested sources) and LIMIT; " +
			"non-trivial: the result has two rows with different keys.",
		Arms: []*Arm{
			arm("query", 50000, 500000, func(t *rapid.T) *progCase {
				g := newG(t)
				c := &progCase{Env: g.stdEnv()}
				group := g.chance(30)
				q, cols := g.query(g.n(0, 1), qopt{nested: g.chance(40), group: group, agg: group})
				keys := []string{"zz"}
				for _, x := range cols {
					if x.Ty == "int" || x.Ty == "num" || x.Ty == "str" || x.Ty == "bool" {
						keys = append(keys, x.Name, x.Name, x.Name)
					}
				}
				q.Order = keys[len(keys)-1-g.n(0, len(keys)-1)]
				q.Desc = g.chance(50)
				if g.chance(50) {
					n := g.n(0, 6)
					q.Limit = &n
				}
				c.Sts = []*St{{Q: q}}
				return c
			}, checkOrder),
			arm("table", 8000, 150000, func(t *rapid.T) *progCase {
				// Bigger tables with many ties and NULLs.
				g := newG(t)
				c := &progCase{Env: &Env{}}
				kind := g.pick("int", "num", "str", "big")
				nulls := g.chance(50)
				rows := &Val{K: "list"}
				max := 12
				if g.chance(15) {
					max = 120
				}
				for i, n := 0, g.n(0, max); i < n; i++ {
					var v *Val
					switch {
					case nulls && g.chance(20):
						v = vNil()
					case kind == "int":
						v = vInt(int64(g.n(-3, 12)))
					case kind == "num":
						switch g.n(0, 3) {
						case 0:
							v = vBool(g.chance(50))
						case 1:
							v = vInt(int64(g.n(-2, 2)))
						default:
							v = vFloat(float64(g.n(-8, 8)) / 4)
						}
					case kind == "str":
						v = vStr(g.pick("", "a", "b", "B", "aa", "10", "9", "é", " "))
					default:
						v = vInt(rapid.SampledFrom([]int64{-1 << 63, 1<<63 - 1, 1<<63 - 2, 1<<53 + 1, 1 << 53, 0, -1}).Draw(t, "big"))
					}
					o := &Val{K: "obj", Keys: []string{"k", "id"}, L: []*Val{v, vInt(int64(i))}}
					if nulls && g.chance(5) {
						o.Keys, o.L = o.Keys[1:], o.L[1:]
					}
					rows.L = append(rows.L, o)
				}
				c.Env.add("rows", rows)
				q := &Q{Cols: []*Col{cStar()}, From: from("rows"), Order: "k", Desc: g.chance(50)}
				if g.chance(40) {
					q.Cols = []*Col{cE(eSym("id"), ""), cE(eSym("k"), "kk")}
					q.Order = "kk"
				}
				if g.chance(50) {
					n := g.n(0, len(rows.L)+1)
					q.Limit = &n
				}
				c.Sts = []*St{{Q: q}}
				if g.chance(30) {
					c.Sts = []*St{{Let: "T", Op: g.pick("=", "<="), Q: &Q{Cols: []*Col{cStar()}, From: from("rows")}}, {Q: q}}
					q.From = from("T")
				}
				return c
			}, checkOrder),
		},
	})
}
