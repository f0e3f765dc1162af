package props

import "pgregory.net/rapid"

// The scoping arm: small definitions with free names, which are found where
// the definition is used: in the row, among the aliases, the parameters and
// the other definitions. Every position of a program may use them.

type scoping struct {
	*G
	lets []*St
}

var freeNames = []string{"a", "k", "x", "y", "w"}

func (g *scoping) name() string { return g.pick(freeNames...) }

func (g *scoping) simple() *E {
	switch g.n(0, 5) {
	case 0, 1:
		return eSym(g.name())
	case 2:
		return eAdd("+", eSym(g.name()), eInt(g.n(0, 2)))
	case 3:
		return eCmp(g.pick("=", "<", ">", "!="), eSym(g.name()), eInt(g.n(0, 3)))
	case 4:
		return eInt(g.n(0, 3))
	}
	return eMul("*", eSym(g.name()), eSym(g.name()))
}

func (g *scoping) callArgs(s *St) []*Arg {
	r := []*Arg{}
	for _, p := range s.Params {
		if g.chance(75) {
			if g.chance(15) {
				r = append(r, aQ(p.Name, g.small()))
			} else if g.chance(12) {
				a := aArr(p.Name)
				for n := g.n(0, 2); n > 0; n-- {
					a.A = append(a.A, g.simple())
				}
				r = append(r, a)
			} else {
				r = append(r, aE(p.Name, g.simple()))
			}
		}
	}
	return r
}

// use of a definition as a value.
func (g *scoping) use() *E {
	if len(g.lets) == 0 || g.chance(20) {
		return g.simple()
	}
	s := g.lets[g.n(0, len(g.lets)-1)]
	v := eSym(s.Let)
	if s.Op == "=" && (s.Called && g.chance(80) || g.chance(15)) {
		v = eCall(s.Let, g.callArgs(s)...)
	}
	if s.Q == nil {
		return v
	}
	switch g.n(0, 3) {
	case 0:
		return &E{K: "mem", A: []*E{v}, T: []*Mem{{K: "term", S: g.name()}}}
	case 1:
		return &E{K: "mem", A: []*E{v}, T: []*Mem{{K: "term", S: g.name()}, {K: "index", I: eInt(g.n(-1, 1))}}}
	case 2:
		return &E{K: "mem", A: []*E{v}, T: []*Mem{{K: "index", I: eInt(g.n(-1, 1))}, {K: "term", S: g.name()}}}
	}
	return v
}

func (g *scoping) cond() *E {
	switch g.n(0, 5) {
	case 0:
		return &E{K: "not", A: []*E{g.use()}}
	case 1:
		return &E{K: "and", A: []*E{g.use(), g.use()}, Ops: []string{g.pick("AND", "&&")}}
	case 2:
		return &E{K: "or", A: []*E{g.use(), g.use()}, Ops: []string{g.pick("OR", "||")}}
	case 3:
		return eCmp(g.pick("=", "<", "IN"), g.use(), g.use())
	}
	return g.use()
}

func (g *scoping) from() *From {
	switch g.n(0, 9) {
	case 0, 1, 2:
		return from("rows")
	case 3:
		return fromCall("range", aE("end", g.simple()))
	case 4:
		return from(g.name())
	case 5:
		return fromCall("scope")
	case 6:
		return fromCall("foreach", aQ("row", g.small()), aQ("query", g.small()))
	}
	if len(g.lets) > 0 {
		s := g.lets[g.n(0, len(g.lets)-1)]
		if s.Op == "=" && (s.Called || g.chance(20)) {
			return fromCall(s.Let, g.callArgs(s)...)
		}
		return from(s.Let)
	}
	return from("rows")
}

func (g *scoping) small() *Q {
	q := &Q{From: from(g.pick("rows", "rows", "w"))}
	q.Cols = append(q.Cols, cE(g.simple(), g.name()))
	if g.chance(50) {
		q.Where = g.simple()
	}
	return q
}

func (g *scoping) q() *Q {
	q := &Q{From: g.from()}
	if q.From.Name != "scope" && g.chance(30) {
		q.Cols = append(q.Cols, cStar())
	}
	for n := g.n(1, 3); n > 0; n-- {
		q.Cols = append(q.Cols, cE(g.use(), g.name()))
	}
	if g.chance(60) {
		q.Where = g.cond()
	}
	if g.chance(20) {
		n := g.n(0, 3)
		q.Limit = &n
	}
	return q
}

func genScoping(t *rapid.T) *progCase {
	g := &scoping{G: newG(t)}
	c := &progCase{Env: &Env{}}
	rows := &Val{K: "list"}
	for n := g.n(1, 3); n > 0; n-- {
		o := &Val{K: "obj"}
		for _, k := range []string{"a", "k", "x"} {
			if g.chance(75) {
				o.Keys = append(o.Keys, k)
				o.L = append(o.L, vInt(int64(g.n(0, 3))))
			}
		}
		if len(o.Keys) == 0 {
			o.Keys, o.L = []string{"a"}, []*Val{vInt(1)}
		}
		rows.L = append(rows.L, o)
	}
	c.Env.add("rows", rows)
	if g.chance(50) {
		c.Env.add("w", rows)
	}
	if g.chance(30) {
		c.Env.add("y", vInt(int64(g.n(0, 3))))
	}
	names := []string{"X", "f", "Y", "Z", "g", "X", "f", "Y", "x", "w"}
	for n := g.n(1, 4); n > 0; n-- {
		s := &St{Let: g.pick(names...), Op: "="}
		for _, l := range g.lets {
			if l.Let == s.Let && g.chance(80) {
				s.Let = g.pick(names...)
			}
		}
		if g.chance(20) {
			s.Op = "<="
		}
		if s.Op == "=" && g.chance(40) {
			s.Called = true
			for _, p := range []string{g.name(), "p"} {
				if g.chance(60) {
					pa := &Param{Name: p}
					if g.chance(40) {
						pa.Def = aE(p, g.simple())
						if g.chance(20) {
							pa.Def = aQ(p, g.small())
						}
					}
					s.Params = append(s.Params, pa)
				}
			}
		}
		if g.chance(60) {
			s.Q = g.q()
		} else {
			s.E = g.use()
		}
		c.Sts = append(c.Sts, s)
		g.lets = append(g.lets, s)
	}
	for n := g.n(1, 2); n > 0; n-- {
		c.Sts = append(c.Sts, &St{Q: g.q()})
	}
	return c
}
