package props

// ColT is a column of a source and the type its cells normally have.
type ColT struct{ Name, Ty string }

// Table is a name which can be selected from.
type Table struct {
	Name   string
	Cols   []ColT
	Params []ColT // call with these arguments
	Called bool
}

type qopt struct {
	limit, order, group, agg bool
	nested                   bool // sub queries in FROM
	letQ                     bool
}

func (g *G) save() map[string][]string {
	c := map[string][]string{}
	for k, v := range g.vars {
		c[k] = append([]string{}, v...)
	}
	return c
}

// with declares columns for the time of f.
func (g *G) with(cols []ColT, f func()) {
	old := g.save()
	for _, c := range cols {
		// The innermost declaration wins.
		for ty, names := range g.vars {
			keep := []string{}
			for _, n := range names {
				if n != c.Name {
					keep = append(keep, n)
				}
			}
			g.vars[ty] = keep
		}
		g.declare(c.Ty, c.Name)
		g.declare(c.Ty, c.Name)
	}
	f()
	g.vars = old
}

var rowCols = []ColT{{"a", "int"}, {"b", "str"}, {"c", "num"}, {"k", "int"}}

// args builds the arguments of a call to a table with parameters.
func (g *G) callArgs(ps []ColT, depth int) []*Arg {
	r := []*Arg{}
	for _, p := range ps {
		if g.chance(85) {
			r = append(r, g.callArg(p, depth))
		}
	}
	return r
}

// callArg is an argument for a parameter: an expression, a list, or a query.
func (g *G) callArg(p ColT, depth int) *Arg {
	if p.Ty == "query" {
		if len(g.tables) > 0 && g.chance(40) {
			t := g.tables[g.n(0, len(g.tables)-1)]
			if !t.Called {
				return aE(p.Name, eSym(t.Name))
			}
			return aE(p.Name, eCall(t.Name, g.callArgs(t.Params, 0)...))
		}
		q, _ := g.query(0, qopt{limit: true})
		return aQ(p.Name, q)
	}
	if g.rich && p.Ty == "list" && g.chance(40) {
		a := &Arg{Name: p.Name, K: "arr"}
		n := g.n(1, 3)
		if g.chance(25) {
			n = 0
		}
		for ; n > 0; n-- {
			a.A = append(a.A, g.expr(g.pick("int", "str"), depth-1))
		}
		return a
	}
	return aE(p.Name, g.expr(p.Ty, depth))
}

// defArg is the default of a parameter.
func (g *G) defArg(p ColT) *Arg {
	if g.rich && g.chance(60) || p.Ty == "query" {
		return g.callArg(p, 1)
	}
	return aE(p.Name, g.lit(p.Ty))
}

// tableExpr uses a stored or materialized query in an expression.
func (g *G) tableExpr(ty string, depth int) *E {
	t := g.tables[g.n(0, len(g.tables)-1)]
	v := eSym(t.Name)
	if t.Called && g.chance(85) {
		v = eCall(t.Name, g.callArgs(t.Params, 0)...)
	}
	col := "a"
	if len(t.Cols) > 0 && g.chance(90) {
		col = t.Cols[g.n(0, len(t.Cols)-1)].Name
	}
	e := &E{K: "mem", A: []*E{v}, T: []*Mem{{K: "term", S: col}}}
	if v.K == "sym" && g.chance(30) {
		e = &E{K: "mem", A: []*E{v}, T: []*Mem{{K: "index", I: eStr(col)}}}
	}
	switch ty {
	case "list", "any":
		if ty == "any" && g.chance(20) {
			return v
		}
		return e
	case "int", "str", "num":
		if g.chance(50) {
			return &E{K: "mem", A: []*E{v}, T: []*Mem{{K: "index", I: eInt(g.n(-2, 3))}, {K: "term", S: col}}}
		}
		e.T = append(e.T, &Mem{K: "index", I: eInt(g.n(-2, 3))})
		return e
	case "bool":
		if g.chance(40) {
			return v
		}
		return eCmp("IN", g.expr(g.pick("int", "str"), 0), e)
	}
	return nil
}

func (g *G) source(depth int, o qopt) (*From, []ColT) {
	k := g.n(0, 13)
	if depth <= 0 || !o.nested {
		k = g.n(0, 6)
	}
	switch k {
	case 0, 1, 2:
		return from("rows"), rowCols
	case 3:
		return fromCall("emit", aE("rows", eSym("rows"))), rowCols
	case 4:
		args := []*Arg{aE("end", eInt(g.n(-1, 6)))}
		if g.chance(50) {
			args = append(args, aE("start", eInt(g.n(-2, 4))))
		}
		if g.chance(30) {
			args = append(args, aE("step", eInt(g.n(-3, 3))))
		}
		return fromCall("range", args...), []ColT{{"_value", "int"}}
	case 5, 6:
		if len(g.tables) > 0 {
			t := g.tables[g.n(0, len(g.tables)-1)]
			if t.Called {
				return fromCall(t.Name, g.callArgs(t.Params, 1)...), t.Cols
			}
			return from(t.Name), t.Cols
		}
		return fromCall("scope"), nil
	case 7, 8:
		q, cols := g.query(depth-1, o)
		var q2 *Q
		var cols2 []ColT
		g.with(cols, func() { q2, cols2 = g.query(depth-1, o) })
		return fromCall("foreach", g.queryArg("row", q), aQ("query", q2)), cols2
	case 9:
		q, cols := g.query(depth-1, o)
		q2, _ := g.query(depth-1, o)
		return fromCall("chain", aQ("b", q), aQ("a", q2)), cols
	case 10:
		q, cols := g.query(depth-1, o)
		args := []*Arg{aE("condition", g.expr("bool", 1)), aQ("then", q)}
		if g.chance(70) {
			q2, _ := g.query(depth-1, o)
			args = append(args, aQ("else", q2))
		}
		return fromCall("if", args...), cols
	case 11:
		q, cols := g.query(depth-1, o)
		return fromCall("flatten", aQ("query", q)), cols
	case 12:
		if g.chance(50) {
			return fromCall("foreach", aE("row", eSym("rows")), aE("column", eStr(g.pick("a", "b", "k")))), nil
		}
		q, cols := g.query(depth-1, o)
		return fromCall("foreach", aQ("row", q)), cols
	}
	q, cols := g.query(depth-1, o)
	return fromCall("foreach", aE("row", eSym("rows")), aQ("query", q)), cols
}

// queryArg passes a query, sometimes as the list of its rows.
func (g *G) queryArg(name string, q *Q) *Arg {
	return aQ(name, q)
}

var aliasNames = []string{"x", "y", "z", "a", "b", "u v", "select", "i"}

func (g *G) query(depth int, o qopt) (*Q, []ColT) {
	q := &Q{}
	var cols []ColT
	q.From, cols = g.source(depth, o)
	out := []ColT{}
	add := func(c ColT) {
		keep := []ColT{}
		for _, x := range out {
			if x.Name != c.Name {
				keep = append(keep, x)
			}
		}
		out = append(keep, c)
	}
	agg := o.agg && g.chance(60)
	g.with(cols, func() {
		if q.From.Name != "scope" && g.chance(25) {
			q.Cols = append(q.Cols, cStar())
			for _, c := range cols {
				add(c)
			}
		}
		n := g.n(0, 3)
		if len(q.Cols) == 0 && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			ty := g.pick("int", "num", "str", "bool", "list", "any")
			if agg && g.chance(60) {
				e, ty := g.aggregate()
				name := aliasNames[g.n(0, len(aliasNames)-1)]
				q.Cols = append(q.Cols, cE(e, name))
				add(ColT{name, ty})
				continue
			}
			if len(cols) > 0 && g.chance(30) {
				c := cols[g.n(0, len(cols)-1)]
				q.Cols = append(q.Cols, cE(eSym(c.Name), ""))
				add(c)
				continue
			}
			name := aliasNames[g.n(0, len(aliasNames)-1)]
			q.Cols = append(q.Cols, cE(g.expr(ty, g.n(0, 2)), name))
			add(ColT{name, ty})
		}
		if g.chance(10) && q.From.Name != "scope" && !q.hasStar() {
			// A * after other columns adds what is missing.
			q.Cols = append(q.Cols, cStar())
			for _, c := range cols {
				has := false
				for _, x := range out {
					has = has || x.Name == c.Name
				}
				if !has {
					add(c)
				}
			}
		}
		// The rest sees the columns of the source and the aliases. An
		// aggregate must not be evaluated by a WHERE.
		vis := []ColT{}
		for _, c := range out {
			if !agg {
				vis = append(vis, c)
			}
		}
		g.with(vis, func() {
			if g.chance(45) && (!agg || o.group) {
				q.Where = g.expr("bool", g.n(0, 2))
				if g.rich && len(g.tables) > 0 && g.chance(15) {
					if e := g.tableExpr("bool", 0); e != nil {
						q.Where = e
					}
				}
			}
			if o.group && g.chance(60) {
				for n := g.n(1, 2); n > 0; n-- {
					ty := g.pick("int", "str", "num", "bool")
					q.Group = append(q.Group, g.expr(ty, g.n(0, 1)))
				}
			}
		})
	})
	if agg && q.Where != nil {
		// Rows must not be mentioned by a name that an aggregate has.
		bad := false
		names := map[string]bool{}
		for _, c := range q.Cols {
			if c.E != nil && hasAggregate(c.E) {
				names[c.As] = true
			}
		}
		check := func(e *E) {
			walkE(e, func(x *E) {
				if (x.K == "sym" || x.K == "call") && names[x.S] {
					bad = true
				}
			})
		}
		check(q.Where)
		if bad {
			q.Where = nil
		}
	}
	if agg {
		names := map[string]bool{}
		for _, c := range q.Cols {
			if c.E != nil && hasAggregate(c.E) {
				names[c.As] = true
			}
		}
		keep := []*E{}
		for _, e := range q.Group {
			bad := false
			walkE(e, func(x *E) { bad = bad || (x.K == "sym" && names[x.S]) })
			if !bad {
				keep = append(keep, e)
			}
		}
		q.Group = keep
	}
	if o.order && g.chance(60) && len(out) > 0 {
		q.Order = out[g.n(0, len(out)-1)].Name
		q.Desc = g.chance(50)
	}
	if o.limit && g.chance(30) {
		n := g.n(0, 7)
		if g.chance(6) {
			n = g.big()
		}
		q.Limit = &n
	}
	return q, out
}

// big is a number of rows no query has.
func (g *G) big() int {
	return []int{100, 255, 256, 1000, 65536, 1 << 31, 1<<31 + 1, 1 << 32, 1<<32 + 2, 1<<53 + 1, 1<<63 - 1}[g.n(0, 10)]
}

func (q *Q) hasStar() bool {
	for _, c := range q.Cols {
		if c.Star {
			return true
		}
	}
	return false
}

var aggNames = map[string]bool{"count": true, "sum": true, "min": true, "max": true, "enumerate": true}

func hasAggregate(e *E) bool {
	r := false
	walkE(e, func(x *E) { r = r || (x.K == "call" && aggNames[x.S]) })
	return r
}

func (g *G) aggregate() (*E, string) {
	switch g.n(0, 4) {
	case 0:
		return eCall("count"), "int"
	case 1:
		return eCall("sum", aE("item", g.aggItem("int"))), "int"
	case 2, 3:
		f := g.pick("min", "max")
		ty := g.pick("int", "int", "int", "num", "str")
		e := g.aggItem(ty)
		if g.rich && g.chance(8) {
			ty, e = "any", g.expr("any", g.n(0, 1))
		}
		return eCall(f, aE("item", e)), ty
	}
	ty := g.pick("int", "str", "num")
	if g.rich && g.chance(15) {
		ty = "any"
	}
	return eCall("enumerate", aE("items", g.expr(ty, g.n(0, 1)))), "list"
}

// aggItem is what an aggregate runs over: also large and negative numbers.
func (g *G) aggItem(ty string) *E {
	e := g.expr(ty, g.n(0, 1))
	if ty == "str" {
		return e
	}
	switch {
	case g.chance(10):
		return eMul("*", e, eNum(g.pick("255", "40000", "4000000000", "1099511627776", "2305843009213693952", "-70000")))
	case g.chance(10):
		return eAdd("-", e, eNum(g.pick("1", "3", "100", "5000000000")))
	case ty == "num" && g.chance(20):
		return eMul("*", e, eNum("0.5"))
	}
	return e
}

// free are names which a definition expects where it is used.
func (g *G) free() []ColT {
	if !g.rich || !g.chance(40) {
		return nil
	}
	cols := append([]ColT{}, rowCols...)
	for _, n := range aliasNames {
		cols = append(cols, ColT{n, "any"}, ColT{n, "any"})
	}
	return cols
}

// params are the parameters of a definition.
func (g *G) params(ty1, ty2 string) (ps []ColT, r []*Param) {
	n := g.n(1, 2)
	if g.rich && g.chance(15) {
		n = 0
	}
	names := []string{"p", "q"}
	if g.rich && g.chance(15) {
		names = []string{"from", "p q"}
	}
	for i := n; i > 0; i-- {
		p := ColT{names[i-1], []string{ty1, ty2}[i-1]}
		if g.rich && g.chance(20) {
			p.Ty = "query"
		}
		prm := &Param{Name: p.Name}
		if g.chance(40) {
			prm.Def = g.defArg(p)
		}
		ps = append(ps, p)
		r = append(r, prm)
	}
	return ps, r
}

// tableLet declares a stored or materialized query.
func (g *G) tableLet(name string, depth int, o qopt) *St {
	s := &St{Let: name, Op: "="}
	t := &Table{Name: name}
	if g.chance(40) {
		s.Op = "<="
		s.Q, t.Cols = g.query(depth, o)
		g.tables = append(g.tables, t)
		return s
	}
	if g.chance(40) {
		t.Params, s.Params = g.params(g.pick("int", "str", "num"), g.pick("int", "str", "num"))
		t.Called = true
		s.Called = true
	}
	old := g.tables
	g.with(append(g.free(), t.Params...), func() {
		for _, p := range t.Params {
			if p.Ty == "query" {
				g.tables = append(append([]*Table{}, g.tables...), &Table{Name: p.Name, Cols: rowCols})
			}
		}
		s.Q, t.Cols = g.query(depth, o)
	})
	g.tables = old
	g.tables = append(g.tables, t)
	return s
}

// exprLet declares a stored or materialized expression.
func (g *G) exprLet(name, ty string, depth int) *St {
	s := &St{Let: name, Op: "="}
	if g.chance(30) {
		s.Op = "<="
		s.E = g.expr(ty, depth)
		g.declare(ty, name)
		return s
	}
	ps := []ColT{}
	if g.chance(50) {
		ps, s.Params = g.params(g.pick("int", "str", "num", "list", "list"), g.pick("int", "str", "num", "list", "list"))
		s.Called = true
	}
	old := g.tables
	for _, p := range ps {
		if p.Ty == "query" {
			g.tables = append(append([]*Table{}, g.tables...), &Table{Name: p.Name, Cols: rowCols})
		}
	}
	g.with(append(g.free(), ps...), func() { s.E = g.expr(ty, depth) })
	g.tables = old
	if !s.Called || g.chance(20) {
		g.declare(ty, name)
	}
	if !s.Called {
		return s
	}
	g.extra = append(g.extra, func(want string, d int) *E {
		if want != ty && want != "any" {
			return nil
		}
		return eCall(name, g.callArgs(ps, d)...)
	})
	return s
}

type progCase struct {
	Env *Env
	Sts []*St
}
