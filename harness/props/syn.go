package props

import (
	"strings"
)

// Syn generates programs from the whole grammar. They need not mean
// anything.

var synNames = []string{"a", "b", "Foo", "_x", "x1", "u v", "select", "Artifact.Windows.Foo", "A.B", "é", "order", "By", "a-b", "x.u v", "long_identifier_name_number_one", "EventData"}
var synFuncs = []string{"count", "dict", "Foo", "u v", "A.F", "upload_directory", "x"}
var synStrings = []string{"", "a", "hello world", "it's", "q\"q", "-- no comment", "/* no comment */", "// no", "a\nb", "tail \nnext  \n", "é", "back\\slash", "SELECT", "%SystemRoot%\\System32\\Winevt\\Logs\\*Sysmon*.evtx", "  lead"}
var synNumbers = []string{"0", "1", "-1", "42", "0x1F", "010", "1.5", "-0.25", ".5", "1e3", "1e-3", "1E+2", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e300", "1e999", "0.1", "100000000000000000000", "1.0", "5e-324"}
var synCmp = []string{"=", "!=", "<>", "<", "<=", ">", ">=", "=~", "IN", "in", "In", "iN"}

func (g *G) synName() string { return g.pick(synNames...) }

func (g *G) synPlain() string {
	return g.pick("a", "b", "Foo", "_x", "x1", "u v", "select", "é", "order", "a-b", "limit")
}

func (g *G) synE(depth int) *E {
	e := g.synE0(depth)
	if g.chance(6) {
		e.St |= 8
	}
	return e
}

func (g *G) synE0(depth int) *E {
	if depth <= 0 {
		switch g.n(0, 7) {
		case 0:
			return eNum(g.pick(synNumbers...))
		case 1:
			return &E{K: "str", S: g.pick(synStrings...), St: g.n(0, 2)}
		case 2:
			return eBool(g.chance(50))
		case 3:
			return eNull()
		case 4:
			e := eSym(g.synName())
			e.Neg = true
			return e
		}
		return eSym(g.synName())
	}
	n := func() int { return g.n(0, depth-1) }
	seq := func(k string, ops ...string) *E {
		e := &E{K: k, A: []*E{g.synE(n())}}
		for i := g.n(1, 3); i > 0; i-- {
			e.A = append(e.A, g.synE(n()))
			e.Ops = append(e.Ops, g.pick(ops...))
		}
		return e
	}
	switch g.n(0, 11) {
	case 0:
		return seq("and", "AND", "and", "&&")
	case 1:
		return seq("or", "OR", "or", "||", "|", "|||")
	case 2:
		return &E{K: "not", A: []*E{g.synE(n())}}
	case 3, 4:
		return eCmp(g.pick(synCmp...), g.synE(n()), g.synE(n()))
	case 5:
		return seq("add", "+", "-")
	case 6:
		return seq("mul", "*", "/")
	case 7:
		e := &E{K: "list"}
		for i := g.n(1, 4); i > 0; i-- {
			e.A = append(e.A, g.synE(n()))
		}
		return e
	case 8:
		e := &E{K: "mem", A: []*E{g.synE(n())}}
		for i := g.n(1, 3); i > 0; i-- {
			m := &Mem{K: g.pick("term", "index", "range")}
			if m.K == "term" {
				m.S = g.synPlain()
			} else {
				if m.K == "index" || g.chance(60) {
					m.I = g.synE(n())
				}
				if m.K == "range" && g.chance(60) {
					m.J = g.synE(n())
				}
			}
			if e.A[0].level() < lvVal || e.A[0].K == "mem" || e.A[0].K == "sym" {
				e.A[0].St |= 8
			}
			e.T = append(e.T, m)
		}
		return e
	}
	e := eCall(g.pick(synFuncs...), g.synArgs(depth, 4)...)
	e.Neg = g.chance(5)
	return e
}

func (g *G) synArgs(depth, max int) []*Arg {
	r := []*Arg{}
	for i := g.n(0, max); i > 0; i-- {
		r = append(r, g.synArg(depth))
	}
	return r
}

func (g *G) synArg(depth int) *Arg {
	name := g.synPlain()
	switch g.n(0, 5) {
	case 0:
		if depth > 0 {
			return aQ(name, g.synQ(depth-1))
		}
	case 1:
		a := aArr(name)
		for i := g.n(0, 3); i > 0; i-- {
			a.A = append(a.A, g.synE(depth-1))
		}
		return a
	}
	return aE(name, g.synE(depth-1))
}

func (g *G) synQ(depth int) *Q {
	q := &Q{Explain: g.chance(5)}
	if g.chance(40) {
		q.Cols = append(q.Cols, cStar())
	}
	for i := g.n(0, 4); i > 0 || len(q.Cols) == 0; i-- {
		c := &Col{}
		if g.chance(60) {
			c.As = g.synPlain()
		}
		switch g.n(0, 9) {
		case 0:
			c = cStar()
		case 1:
			if depth > 0 {
				c.Q = g.synQ(depth - 1)
				break
			}
			fallthrough
		default:
			c.E = g.synE(g.n(0, depth))
		}
		q.Cols = append(q.Cols, c)
	}
	q.From = from(g.synName())
	if g.chance(60) {
		q.From = fromCall(g.synName(), g.synArgs(depth, 4)...)
	}
	if g.chance(40) {
		q.Where = g.synE(depth)
	}
	if g.chance(25) {
		for i := g.n(1, 3); i > 0; i-- {
			q.Group = append(q.Group, g.synE(depth-1))
		}
	}
	if g.chance(25) {
		q.Order = g.synPlain()
		q.Desc = g.chance(50)
	}
	if g.chance(25) {
		n := g.n(0, 100)
		if g.chance(10) {
			n = g.big()
		}
		q.Limit = &n
	}
	return q
}

func (g *G) synSt(depth int) *St {
	if g.chance(50) {
		return &St{Q: g.synQ(depth)}
	}
	s := &St{Let: g.synPlain(), Op: g.pick("=", "<=")}
	if g.chance(40) {
		s.Called = true
		for i := g.n(0, 4); i > 0; i-- {
			p := &Param{Name: g.synPlain()}
			if g.chance(40) {
				p.Def = g.synArg(depth - 1)
				p.Def.Name = p.Name
			}
			s.Params = append(s.Params, p)
		}
	}
	if g.chance(50) {
		s.Q = g.synQ(depth)
	} else {
		s.E = g.synE(depth)
		if s.E.K == "list" {
			// A list starts like a parenthesised expression.
			s.E.St &^= 8
		}
	}
	return s
}

// randomCase changes the case of a keyword.
func (g *G) randomCase(s string) string {
	switch g.n(0, 3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s[:1]) + strings.ToLower(s[1:])
	}
	return s
}

// layout prints tokens with other white space, keyword case and comments
// between them.
func (g *G) layout(toks []Tok, comments int) string {
	glue := "(),[]{}=.:"
	out := ""
	for i, t := range toks {
		s := t.S
		if t.K == "kw" {
			s = g.randomCase(s)
			if strings.Contains(s, " ") && g.chance(50) {
				s = strings.ReplaceAll(s, " ", g.pick("  ", "\n", "\t", "\r\n", " \n\n\t "))
			}
		}
		if i > 0 {
			p := toks[i-1]
			if comments > 0 && g.chance(comments) {
				out += " " + g.comment()
			} else if (strings.Contains(glue, p.S) || strings.Contains(glue, t.S)) && g.chance(60) {
				// No space.
			} else {
				out += g.pick(" ", " ", " ", "\n", "\t", "  ", "\r\n", "\n\n   ")
			}
		}
		out += s
	}
	return out
}

var commentTexts = []string{"a comment", "SELECT * FROM x", "it's", "x = 1, (", "long comment which goes on and on to make the line too wide for any formatter to keep it", "é", "", "* x *", "\"", "-- again", "// again"}

func (g *G) comment() string {
	t := g.pick(commentTexts...)
	nl := g.pick("\n", "\n", "\n", "\r\n", " \n", "\n\n", "\t\n\t")
	switch g.n(0, 4) {
	case 0:
		return "-- " + t + nl
	case 1:
		return "// " + t + nl
	case 2:
		return "/* " + t + "\n  second line */" + g.pick(" ", nl)
	case 3:
		return g.pick("/**/", "/***/", "/*\r\n * a\r\n *\r\n * b\r\n */", "/*\n\n\tx  \n  */", "/*-- x\n*/", "/*// */", "//\n", "--\n", "--/* x\n", "///* x */ y\n") + g.pick(" ", nl)
	}
	return "/* " + t + " */" + g.pick(" ", nl)
}
