package props

import (
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// G generates expressions over known variables.
type G struct {
	t    *rapid.T
	vars map[string][]string // type -> variable names
	noRe bool                // no regular expressions

	// Hooks for calls which only some properties use.
	extra   []func(ty string, depth int) *E
	extraP  int
	quoted  bool     // use awkward identifiers
	rich    bool     // stored queries in expressions, any defaults of parameters
	res     []string // regular expressions used before
	tables  []*Table
	workers []string
}

func newG(t *rapid.T) *G { return &G{t: t, vars: map[string][]string{}} }

func (g *G) n(lo, hi int) int        { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *G) chance(p int) bool       { return rapid.IntRange(0, 99).Draw(g.t, "p") >= 100-p }
func (g *G) pick(a ...string) string { return a[rapid.IntRange(0, len(a)-1).Draw(g.t, "pick")] }

func (g *G) declare(ty, name string) { g.vars[ty] = append(g.vars[ty], name) }

var intTokens = []string{"0", "1", "2", "3", "5", "10", "7", "-1", "-3", "100", "0x10", "9223372036854775807", "4611686018427387904", "-9223372036854775808", "10000"}
var floatTokens = []string{"0.0", "1.0", "0.5", "2.5", "-1.5", "1e3", "3.25", "1e300", "9007199254740993.0", "-0.25", ".5"}
var strValues = []string{"", "a", "b", "abc", "A", "hello", "aXb", "1", "10", "2", "x y", "é", "it's", "q\"q", "a.b", "-- c", "back\\slash", "/* c */", "NULL", "new\nline"}

// swapCase turns \d into \D.
func swapCase(s string) string {
	return strings.Map(func(c rune) rune {
		if unicode.IsUpper(c) {
			return unicode.ToLower(c)
		}
		return unicode.ToUpper(c)
	}, s)
}

var regexValues = []string{"a", "^a", "b$", ".", ".*", "", "H.L", "[0-9]+", "x|y", "(", "^$", "\\.", "A", "\\d", "\\D", "^\\w+$", "^\\W*$", "\\s", "\\S", "\\bab", "\\Bb"}

func (g *G) intLit() *E {
	if g.chance(70) {
		return eInt(g.n(0, 12))
	}
	return eNum(g.pick(intTokens...))
}

func (g *G) floatLit() *E { return eNum(g.pick(floatTokens...)) }

func (g *G) strLitE() *E {
	return &E{K: "str", S: g.pick(strValues...), St: g.n(0, 2)}
}

// lit is a literal of a type.
func (g *G) lit(ty string) *E {
	switch ty {
	case "int":
		return g.intLit()
	case "num":
		switch g.n(0, 9) {
		case 0, 1, 2:
			return g.floatLit()
		case 3:
			return eBool(g.chance(50))
		}
		return g.intLit()
	case "str":
		return g.strLitE()
	case "bool":
		return eBool(g.chance(50))
	case "list":
		n := g.n(1, 3)
		l := []*E{}
		el := g.pick("int", "str", "num")
		for i := 0; i < n; i++ {
			l = append(l, g.lit(el))
		}
		return eList(l...)
	case "obj":
		n := g.n(0, 3)
		c := eCall("dict")
		for i := 0; i < n; i++ {
			c.P = append(c.P, aE([]string{"a", "b", "c"}[i], g.lit(g.pick("int", "str", "num"))))
		}
		return c
	}
	switch g.n(0, 6) {
	case 0:
		return eNull()
	case 1:
		return g.lit("str")
	case 2:
		return g.lit("bool")
	case 3:
		return g.lit("list")
	case 4:
		return g.lit("obj")
	}
	return g.lit("num")
}

func (g *G) atom(ty string) *E {
	names := g.vars[ty]
	if ty == "num" {
		names = append(append([]string{}, names...), g.vars["int"]...)
	}
	if ty == "any" {
		for _, k := range sortedKeys(g.vars) {
			if k != "any" {
				names = append(names, g.vars[k]...)
			}
		}
		names = append(names, g.vars["any"]...)
	}
	if len(names) > 0 && g.chance(60) {
		return eSym(g.pick(names...))
	}
	return g.lit(ty)
}

// expr is an expression which normally has type ty.
func (g *G) expr(ty string, depth int) *E {
	if depth > 0 && g.chance(8) {
		// Anything may appear anywhere.
		ty = "any"
	}
	if ty == "any" && depth > 0 {
		ty = g.pick("num", "str", "bool", "list", "obj", "num", "bool")
	}
	e := g.expr0(ty, depth)
	if g.chance(4) {
		e.St |= 8
	}
	return e
}

func (g *G) expr0(ty string, depth int) *E {
	if depth <= 0 {
		return g.atom(ty)
	}
	if g.rich && len(g.tables) > 0 && g.chance(12) {
		if e := g.tableExpr(ty, depth-1); e != nil {
			return e
		}
	}
	if len(g.extra) > 0 && g.chance(max(15, g.extraP)) {
		f := g.extra[g.n(0, len(g.extra)-1)]
		if e := f(ty, depth-1); e != nil {
			return e
		}
	}
	switch ty {
	case "int", "num":
		switch g.n(0, 9) {
		case 0, 1, 2:
			return g.chain("add", ty, depth)
		case 3, 4, 5:
			return g.chain("mul", ty, depth)
		case 6:
			// Negation of a symbol.
			if names := append(append([]string{}, g.vars["int"]...), g.vars["num"]...); len(names) > 0 {
				e := eSym(g.pick(names...))
				e.Neg = true
				return e
			}
		case 7:
			return g.index("int", depth)
		case 8:
			return eCall("len", aE("list", g.expr(g.pick("list", "str", "obj"), depth-1)))
		}
	case "str":
		switch g.n(0, 6) {
		case 0, 1, 2:
			n := g.n(1, 2)
			e := &E{K: "add", A: []*E{g.expr("str", depth-1)}}
			for i := 0; i < n; i++ {
				e.A = append(e.A, g.expr("str", depth-1))
				e.Ops = append(e.Ops, "+")
			}
			return e
		case 3:
			return eMul("*", g.expr("str", depth-1), eInt(g.n(-1, 4)))
		case 4:
			return g.rng("str", depth)
		case 5:
			return g.index("str", depth)
		}
	case "bool":
		switch g.n(0, 9) {
		case 0, 1, 2:
			ty := g.pick("num", "int", "str", "any", "list", "obj")
			return eCmp(g.pick("=", "!=", "<", "<=", ">", ">=", "<>"), g.expr(ty, depth-1), g.expr(ty, depth-1))
		case 3:
			if g.chance(50) {
				return eCmp(g.pick("IN", "in", "In"), g.expr("any", depth-1), g.expr("list", depth-1))
			}
			return eCmp("IN", g.expr("str", depth-1), g.expr(g.pick("str", "obj"), depth-1))
		case 4:
			if g.noRe {
				break
			}
			re := g.pick(regexValues...)
			if len(g.res) > 0 && g.chance(30) {
				re = swapCase(g.res[g.n(0, len(g.res)-1)])
			}
			g.res = append(g.res, re)
			return eCmp("=~", g.expr(g.pick("str", "list"), depth-1), &E{K: "str", S: re})
		case 5, 6:
			return g.logic("and", []string{"AND", "and", "&&"}, depth)
		case 7, 8:
			return g.logic("or", []string{"OR", "or", "||", "||", "|"}, depth)
		case 9:
			return &E{K: "not", A: []*E{g.expr(g.pick("bool", "bool", "any"), depth-1)}}
		}
	case "list":
		switch g.n(0, 5) {
		case 0, 1:
			n := g.n(1, 3)
			el := g.pick("int", "str", "any", "list")
			e := &E{K: "list"}
			for i := 0; i < n; i++ {
				e.A = append(e.A, g.expr(el, depth-1))
			}
			return e
		case 2:
			return eAdd("+", g.expr("list", depth-1), g.expr(g.pick("list", "any"), depth-1))
		case 3:
			return g.rng("list", depth)
		case 4:
			if names := g.vars["rows"]; len(names) > 0 {
				return &E{K: "mem", A: []*E{eSym(g.pick(names...))}, T: []*Mem{{K: "term", S: g.pick("a", "b", "c", "k", "zz")}}}
			}
		}
	case "obj":
		switch g.n(0, 4) {
		case 0, 1:
			n := g.n(0, 3)
			c := eCall("dict")
			for i := 0; i < n; i++ {
				c.P = append(c.P, aE([]string{"a", "b", "c"}[i], g.expr("any", depth-1)))
			}
			return c
		case 2:
			if names := g.vars["rows"]; len(names) > 0 {
				return &E{K: "mem", A: []*E{eSym(g.pick(names...))}, T: []*Mem{{K: "index", I: eInt(g.n(-3, 3))}}}
			}
		}
	}
	return g.atom(ty)
}

func (g *G) chain(k, ty string, depth int) *E {
	n := g.n(1, 3)
	e := &E{K: k, A: []*E{g.expr(ty, depth-1)}}
	ops := []string{"+", "-"}
	if k == "mul" {
		ops = []string{"*", "/"}
		if ty == "int" {
			ops = []string{"*"}
		}
	}
	for i := 0; i < n; i++ {
		e.A = append(e.A, g.expr(ty, depth-1))
		e.Ops = append(e.Ops, g.pick(ops...))
	}
	return e
}

func (g *G) logic(k string, ops []string, depth int) *E {
	n := g.n(1, 3)
	e := &E{K: k, A: []*E{g.expr(g.pick("bool", "bool", "any"), depth-1)}}
	for i := 0; i < n; i++ {
		e.A = append(e.A, g.expr(g.pick("bool", "bool", "any"), depth-1))
		e.Ops = append(e.Ops, g.pick(ops...))
	}
	return e
}

// index is an element of something, normally of type ty.
func (g *G) index(ty string, depth int) *E {
	switch g.n(0, 3) {
	case 0:
		return &E{K: "mem", A: []*E{g.expr("list", depth-1)}, T: []*Mem{{K: "index", I: eInt(g.n(-4, 4))}}}
	case 1:
		return &E{K: "mem", A: []*E{g.expr("obj", depth-1)}, T: []*Mem{{K: "term", S: g.pick("a", "b", "c", "zz")}}}
	case 2:
		if ty == "int" {
			return &E{K: "mem", A: []*E{g.expr("str", depth-1)}, T: []*Mem{{K: "index", I: eInt(g.n(-4, 4))}}}
		}
		return &E{K: "mem", A: []*E{g.expr("obj", depth-1)}, T: []*Mem{{K: "index", I: eStr(g.pick("a", "b", "c", "zz"))}}}
	}
	if names := g.vars["rows"]; len(names) > 0 {
		return &E{K: "mem", A: []*E{eSym(g.pick(names...))}, T: []*Mem{
			{K: "index", I: eInt(g.n(-3, 3))}, {K: "term", S: g.pick("a", "b", "c", "k")}}}
	}
	return g.atom(ty)
}

// rng is a sub range of a string or list.
func (g *G) rng(ty string, depth int) *E {
	m := &Mem{K: "range"}
	if g.chance(70) {
		m.I = g.rangeBound(depth)
	}
	if g.chance(70) {
		m.J = g.rangeBound(depth)
	}
	return &E{K: "mem", A: []*E{g.expr(ty, depth-1)}, T: []*Mem{m}}
}

func (g *G) rangeBound(depth int) *E {
	if g.chance(85) {
		return eInt(g.n(-5, 6))
	}
	return g.expr("num", 0)
}

// Values of the environment.

func (g *G) val(ty string, depth int) *Val {
	switch ty {
	case "int":
		if g.chance(15) {
			return vInt(rapid.SampledFrom([]int64{0, -1, 1 << 53, 1<<63 - 1, -1 << 63, 1 << 31, 255}).Draw(g.t, "i"))
		}
		return vInt(int64(g.n(-3, 12)))
	case "num":
		switch g.n(0, 4) {
		case 0:
			return vFloat(rapid.SampledFrom([]float64{0, 0.5, 1.5, -2.25, 1, 2, 1e18, 9007199254740992}).Draw(g.t, "f"))
		case 1:
			return vFloat(float64(g.n(-8, 8)) / 4)
		}
		return g.val("int", 0)
	case "str":
		return vStr(g.pick(strValues...))
	case "bool":
		return vBool(g.chance(50))
	case "list":
		n := g.n(0, 4)
		v := &Val{K: "list"}
		el := g.pick("int", "str", "num", "any")
		for i := 0; i < n; i++ {
			v.L = append(v.L, g.val(el, depth-1))
		}
		return v
	case "obj":
		n := g.n(0, 3)
		v := &Val{K: "obj"}
		for i := 0; i < n; i++ {
			v.Keys = append(v.Keys, []string{"a", "b", "c"}[i])
			v.L = append(v.L, g.val("any", depth-1))
		}
		return v
	case "rows":
		n := g.n(0, 6)
		v := &Val{K: "list"}
		for i := 0; i < n; i++ {
			v.L = append(v.L, g.row(depth))
		}
		return v
	}
	if depth <= 0 {
		switch g.n(0, 5) {
		case 0:
			if g.chance(20) {
				return &Val{K: "gnil"}
			}
			return vNil()
		case 1:
			return g.val("str", 0)
		case 2:
			return g.val("bool", 0)
		}
		return g.val("num", 0)
	}
	return g.val(g.pick("nil", "int", "num", "str", "bool", "list", "obj"), depth-1)
}

// row is a table row with an int a, a string b, a number or NULL c and a
// small integer k.
func (g *G) row(depth int) *Val {
	o := &Val{K: "obj", Keys: []string{"a", "b", "c", "k"}}
	c := g.val("num", 0)
	if g.chance(20) {
		c = vNil()
	}
	o.L = []*Val{g.val("int", 0), g.val("str", 0), c, vInt(int64(g.n(0, 2)))}
	if g.chance(30) {
		o.Keys = append(o.Keys, "l")
		o.L = append(o.L, g.val("list", 1))
	}
	return o
}

// stdEnv is an environment with a variable of every type.
func (g *G) stdEnv() *Env {
	e := &Env{}
	put := func(name, ty string, v *Val) {
		e.add(name, v)
		g.declare(ty, name)
	}
	put("i", "int", g.val("int", 0))
	put("j", "int", g.val("int", 0))
	put("f", "num", g.val("num", 0))
	put("s", "str", g.val("str", 0))
	put("t", "str", g.val("str", 0))
	put("bb", "bool", g.val("bool", 0))
	if g.chance(15) {
		put("n", "any", &Val{K: "gnil"})
	} else {
		put("n", "any", vNil())
	}
	put("l", "list", g.val("list", 1))
	put("d", "obj", g.val("obj", 1))
	put("rows", "rows", g.val("rows", 1))
	return e
}

func fstr(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }
