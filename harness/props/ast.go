package props

import (
	"strings"
)

// E is an expression of the reference model's own syntax tree.
//
//	num S=token | str S=value St=style | bool B | null
//	sym S (Neg) | dot S=full dotted name as components in Ops
//	call S P (Neg) | list A | sub Q
//	and/or/add/mul A Ops | not A[0] | cmp S A | mem A[0] T
type E struct {
	K   string
	S   string   `json:",omitempty"`
	B   bool     `json:",omitempty"`
	Neg bool     `json:",omitempty"`
	St  int      `json:",omitempty"` // style: 1 adds redundant parens
	A   []*E     `json:",omitempty"`
	Ops []string `json:",omitempty"`
	P   []*Arg   `json:",omitempty"`
	T   []*Mem   `json:",omitempty"`
	Q   *Q       `json:",omitempty"`
}

// Mem is one step of a member expression.
type Mem struct {
	K    string // term index range
	S    string `json:",omitempty"`
	I, J *E     `json:",omitempty"`
}

// Arg is a keyword argument.
type Arg struct {
	Name string
	K    string // "" expression, "q" subselect, "arr" [a, b]
	E    *E     `json:",omitempty"`
	Q    *Q     `json:",omitempty"`
	A    []*E   `json:",omitempty"`
}

// Col is a column of a SELECT.
type Col struct {
	Star bool   `json:",omitempty"`
	E    *E     `json:",omitempty"`
	Q    *Q     `json:",omitempty"`
	As   string `json:",omitempty"`
}

// Q is a SELECT query.
type Q struct {
	Explain bool `json:",omitempty"`
	Cols    []*Col
	From    *From
	Where   *E     `json:",omitempty"`
	Group   []*E   `json:",omitempty"`
	Order   string `json:",omitempty"`
	Desc    bool   `json:",omitempty"`
	Limit   *int   `json:",omitempty"`
}

// From is the plugin or the symbol selected from.
type From struct {
	Name string
	Call bool   `json:",omitempty"`
	P    []*Arg `json:",omitempty"`
}

// Param is a parameter of a LET.
type Param struct {
	Name string
	Def  *Arg `json:",omitempty"`
}

// St is a statement: a LET when Let is set, otherwise Q.
type St struct {
	Let    string   `json:",omitempty"`
	Called bool     `json:",omitempty"`
	Params []*Param `json:",omitempty"`
	Op     string   `json:",omitempty"`
	E      *E       `json:",omitempty"`
	Q      *Q       `json:",omitempty"`
}

const (
	lvAnd = iota
	lvOr
	lvCond
	lvAdd
	lvMul
	lvMem
	lvVal
)

func (e *E) level() int {
	switch e.K {
	case "and":
		return lvAnd
	case "or":
		return lvOr
	case "not", "cmp":
		return lvCond
	case "add":
		return lvAdd
	case "mul":
		return lvMul
	case "mem":
		return lvMem
	}
	return lvVal
}

var keywords = map[string]bool{
	"explain": true, "select": true, "where": true, "and": true, "or": true,
	"from": true, "not": true, "as": true, "in": true, "limit": true,
	"null": true, "desc": true, "group": true, "order": true, "by": true,
	"true": true, "false": true, "let": true,
}

// ident quotes an identifier if it needs it.
func ident(s string) string {
	ok := s != ""
	for i, c := range s {
		if c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (i > 0 && c >= '0' && c <= '9') {
			continue
		}
		ok = false
	}
	if ok && !keywords[strings.ToLower(s)] {
		return s
	}
	return "`" + s + "`"
}

// dotted renders a dotted name; the components never contain a dot.
func dotted(s string) string {
	parts := strings.Split(s, ".")
	for i, p := range parts {
		parts[i] = ident(p)
	}
	return strings.Join(parts, ".")
}

// strLit renders a string literal. Style 1 is double quoted, 2 is literal.
func strLit(s string, style int) string {
	if style == 2 && !strings.Contains(s, "'''") && !strings.HasSuffix(s, "'") {
		return "'''" + s + "'''"
	}
	quote := "'"
	if style == 1 {
		quote = "\""
	}
	s = strings.ReplaceAll(s, "\\", "\\\\")
	s = strings.ReplaceAll(s, quote, "\\"+quote)
	return quote + s + quote
}

func render(e *E, min int) string {
	s := renderBare(e)
	if e.level() < min || (e.St&8 != 0) {
		return "(" + s + ")"
	}
	return s
}

func renderBare(e *E) string {
	switch e.K {
	case "num":
		return e.S
	case "str":
		return strLit(e.S, e.St&3)
	case "bool":
		if e.B {
			return "TRUE"
		}
		return "FALSE"
	case "null":
		return "NULL"
	case "sym":
		if e.Neg {
			return "-" + dotted(e.S)
		}
		return dotted(e.S)
	case "call":
		s := dotted(e.S) + "(" + renderArgs(e.P) + ")"
		if e.Neg {
			s = "-" + s
		}
		return s
	case "list":
		parts := []string{}
		for _, x := range e.A {
			parts = append(parts, render(x, lvAnd))
		}
		if len(parts) == 1 {
			return "(" + parts[0] + ",)"
		}
		return "(" + strings.Join(parts, ", ") + ")"
	case "and":
		return joinOps(e, lvOr, lvOr)
	case "or":
		return joinOps(e, lvCond, lvCond)
	case "not":
		return "NOT " + render(e.A[0], lvCond)
	case "cmp":
		return render(e.A[0], lvAdd) + " " + e.S + " " + render(e.A[1], lvAdd)
	case "add":
		return joinOps(e, lvMul, lvMul)
	case "mul":
		return joinOps(e, lvMem, lvVal)
	case "mem":
		s := render(e.A[0], lvVal)
		for _, t := range e.T {
			switch t.K {
			case "term":
				s += "." + ident(t.S)
			case "index":
				s += "[" + render(t.I, lvVal) + "]"
			case "range":
				s += "["
				if t.I != nil {
					s += render(t.I, lvVal)
				}
				s += " : "
				if t.J != nil {
					s += render(t.J, lvVal)
				}
				s += "]"
			}
		}
		return s
	}
	panic("harness: unknown expression " + e.K)
}

func joinOps(e *E, first, rest int) string {
	s := render(e.A[0], first)
	for i, x := range e.A[1:] {
		s += " " + e.Ops[i] + " " + render(x, rest)
	}
	return s
}

func renderArgs(args []*Arg) string {
	parts := []string{}
	for _, a := range args {
		parts = append(parts, renderArg(a))
	}
	return strings.Join(parts, ", ")
}

func renderArg(a *Arg) string {
	s := ident(a.Name) + "="
	switch a.K {
	case "q":
		return s + "{ " + a.Q.String() + " }"
	case "arr":
		parts := []string{}
		for _, x := range a.A {
			parts = append(parts, render(x, lvAnd))
		}
		return s + "[" + strings.Join(parts, ", ") + "]"
	}
	return s + render(a.E, lvAnd)
}

func (e *E) String() string { return render(e, lvAnd) }

func (c *Col) String() string {
	s := ""
	switch {
	case c.Star:
		return "*"
	case c.Q != nil:
		s = "{ " + c.Q.String() + " }"
	default:
		s = render(c.E, lvAnd)
	}
	if c.As != "" {
		s += " AS " + ident(c.As)
	}
	return s
}

func (f *From) String() string {
	s := dotted(f.Name)
	if f.Call {
		s += "(" + renderArgs(f.P) + ")"
	}
	return s
}

func itoa(i int) string { return show(int64(i)) }

func (q *Q) String() string {
	s := "SELECT "
	if q.Explain {
		s = "EXPLAIN SELECT "
	}
	for i, c := range q.Cols {
		if i > 0 {
			s += ", "
		}
		s += c.String()
	}
	s += " FROM " + q.From.String()
	if q.Where != nil {
		s += " WHERE " + render(q.Where, lvAnd)
	}
	if len(q.Group) > 0 {
		s += " GROUP BY "
		for i, g := range q.Group {
			if i > 0 {
				s += ", "
			}
			s += render(g, lvAnd)
		}
	}
	if q.Order != "" {
		s += " ORDER BY " + ident(q.Order)
		if q.Desc {
			s += " DESC"
		}
	}
	if q.Limit != nil {
		s += " LIMIT " + itoa(*q.Limit)
	}
	return s
}

func (s *St) String() string {
	if s.Let == "" {
		return s.Q.String()
	}
	r := "LET " + ident(s.Let)
	if s.Called || len(s.Params) > 0 {
		parts := []string{}
		for _, p := range s.Params {
			if p.Def != nil {
				parts = append(parts, renderArg(p.Def))
			} else {
				parts = append(parts, ident(p.Name))
			}
		}
		r += "(" + strings.Join(parts, ", ") + ")"
	}
	r += " " + s.Op + " "
	if s.Q != nil {
		return r + s.Q.String()
	}
	return r + render(s.E, lvAnd)
}

func program(sts []*St) string {
	parts := []string{}
	for _, s := range sts {
		parts = append(parts, s.String())
	}
	return strings.Join(parts, "\n")
}

// Constructors.
func eNum(s string) *E                   { return &E{K: "num", S: s} }
func eInt(i int) *E                      { return &E{K: "num", S: itoa(i)} }
func eStr(s string) *E                   { return &E{K: "str", S: s} }
func eSym(s string) *E                   { return &E{K: "sym", S: s} }
func eBool(b bool) *E                    { return &E{K: "bool", B: b} }
func eNull() *E                          { return &E{K: "null"} }
func eCmp(op string, a, b *E) *E         { return &E{K: "cmp", S: op, A: []*E{a, b}} }
func eAdd(op string, a, b *E) *E         { return &E{K: "add", Ops: []string{op}, A: []*E{a, b}} }
func eMul(op string, a, b *E) *E         { return &E{K: "mul", Ops: []string{op}, A: []*E{a, b}} }
func eCall(name string, args ...*Arg) *E { return &E{K: "call", S: name, P: args} }
func eList(a ...*E) *E                   { return &E{K: "list", A: a} }
func aE(name string, e *E) *Arg          { return &Arg{Name: name, E: e} }
func aQ(name string, q *Q) *Arg          { return &Arg{Name: name, K: "q", Q: q} }
func aArr(name string, a ...*E) *Arg     { return &Arg{Name: name, K: "arr", A: a} }
func cE(e *E, as string) *Col            { return &Col{E: e, As: as} }
func cStar() *Col                        { return &Col{Star: true} }
func from(name string) *From             { return &From{Name: name} }
func fromCall(name string, args ...*Arg) *From {
	return &From{Name: name, Call: true, P: args}
}

// walk visits every expression of a query or expression.
func walkE(e *E, f func(*E)) {
	if e == nil {
		return
	}
	f(e)
	for _, x := range e.A {
		walkE(x, f)
	}
	for _, a := range e.P {
		walkArg(a, f)
	}
	for _, t := range e.T {
		walkE(t.I, f)
		walkE(t.J, f)
	}
	walkQ(e.Q, f)
}

func walkArg(a *Arg, f func(*E)) {
	walkE(a.E, f)
	walkQ(a.Q, f)
	for _, x := range a.A {
		walkE(x, f)
	}
}

func walkQ(q *Q, f func(*E)) {
	if q == nil {
		return
	}
	for _, c := range q.Cols {
		walkE(c.E, f)
		walkQ(c.Q, f)
	}
	for _, a := range q.From.P {
		walkArg(a, f)
	}
	walkE(q.Where, f)
	for _, g := range q.Group {
		walkE(g, f)
	}
}

func walkSt(s *St, f func(*E)) {
	walkE(s.E, f)
	walkQ(s.Q, f)
	for _, p := range s.Params {
		if p.Def != nil {
			walkArg(p.Def, f)
		}
	}
}
