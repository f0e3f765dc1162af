package props

import (
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/alecthomas/participle/v2/lexer"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
)

// tokenType is the documented type of a token.
func tokenType(t Tok) string {
	switch t.K {
	case "kw":
		s := strings.ToUpper(t.S)
		switch {
		case strings.HasPrefix(s, "GROUP"):
			return "GROUPBY"
		case strings.HasPrefix(s, "ORDER"):
			return "ORDERBY"
		case s == "TRUE" || s == "FALSE":
			return "BOOL"
		}
		return s
	case "ident":
		return "Ident"
	case "sym":
		return "SymbolIdent"
	case "num":
		return "Number"
	case "str":
		if strings.HasPrefix(t.S, "'''") && len(t.S) >= 6 {
			return "MultilineString"
		}
		return "String"
	case "comment":
		switch t.S[:2] {
		case "--":
			return "VQLComment"
		case "//":
			return "Comment"
		}
		return "MLineComment"
	}
	switch t.S[0] {
	case '|':
		return "AlternativeOR"
	case '&':
		return "AlternativeAND"
	}
	return "Operators"
}

type bytesCase struct {
	Text []byte
}

func checkTokenize(r *R, c *bytesCase) {
	text := string(c.Text)
	want, ok := lexVQL(text)
	got, err := vfilter.Tokenize(text)
	if (err == nil) != ok {
		r.Failf("Tokenize(%q): error %v, expected tokens: %v", text, err, ok)
	}
	if !ok {
		r.Class("invalid")
		return
	}
	r.Class("valid")
	if len(got) != len(want) {
		r.Failf("Tokenize(%q) gives %d tokens, expected %d", text, len(got), len(want))
	}
	special := false
	for i, w := range want {
		g := got[i]
		if g.Value != w.S || g.Type != tokenType(w) {
			r.Failf("token %d of %q is %s %q, expected %s %q", i, text, g.Type, g.Value, tokenType(w), w.S)
		}
		if g.Pos.Offset != w.Off || g.Pos.Line != w.Line || g.Pos.Column != w.Col {
			r.Failf("token %d of %q (%q) is at offset %d line %d column %d, expected %d %d %d", i, text, w.S,
				g.Pos.Offset, g.Pos.Line, g.Pos.Column, w.Off, w.Line, w.Col)
		}
		if g.EndPos.Offset != w.EndOff || g.EndPos.Line != w.EndLine || g.EndPos.Column != w.EndCol {
			r.Failf("token %d of %q (%q) ends at offset %d line %d column %d, expected %d %d %d", i, text, w.S,
				g.EndPos.Offset, g.EndPos.Line, g.EndPos.Column, w.EndOff, w.EndLine, w.EndCol)
		}
		special = special || strings.Contains(w.S, "\n") || utf8.RuneCountInString(w.S) != len(w.S)
	}
	r.Count("tokens", len(want))
	r.NonTrivialIf(len(want) >= 5)
	if special {
		r.Class("with lines or characters inside of a token")
	}
}

var fuzzPieces = []string{"SELECT", "select", "FROM", "a", "b1", "_", "AND", "ANDx", "order by", "ORDER  BY", "group\nby", "group", "by",
	"'", "\"", "`", "'''", "\\", "--", "//", "/*", "*/", "-", "+", "=", "<", ">", "!", "~", "|", "||", "&", "&&", "%", ",", ".", ":", "(", ")", "[", "]", "{", "}",
	"0", "1", "0x", "0x1f", "1.5", "1e", "1e5", ".", "e-3", " ", "\n", "\t", "é", "\xff", "日", "LET", "NULL", "true", "False", "in", "limit", "#", "\x00", "Desc", "x.y", "''"}

var validPieces = []string{"SELECT", "from", "a", "`u v`", "-x", "-`é`", "'é\n'", "\"q\\\"\"", "'''a'b\n'''", "-- é\n", "// c\n", "/* a\n é */",
	"1", "-0x1F", "1.5e-3", "=", "<=", "=~", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", ":", "+", "-", "*", "order by", "Group\n By", "NULL", "true", "x1", "'日本'"}

func genBytes(t *rapid.T) *bytesCase {
	g := newG(t)
	c := &bytesCase{}
	wild := g.n(0, 60)
	for n := g.n(0, 24); n > 0; n-- {
		if g.chance(wild) {
			c.Text = append(c.Text, g.pick(fuzzPieces...)...)
		} else {
			c.Text = append(c.Text, g.pick(validPieces...)...)
		}
		if g.chance(50) {
			c.Text = append(c.Text, ' ')
		}
	}
	return c
}

// siteCase is a program, printed with some layout.
type siteCase struct {
	Sts   []*St
	Text  string
	Lines bool // format while collecting
}

// toksOf is the list of tokens of a text, "" when it does not lex.
func toksOf(s string) string {
	toks, ok := lexVQL(s)
	if !ok {
		return "does not lex: " + s
	}
	return strings.Join(normToks(toks, false), " ")
}

// posOK checks that line and column agree with the offset.
func posOK(text string, p lexer.Position) bool {
	if p.Offset < 0 || p.Offset > len(text) {
		return false
	}
	before := text[:p.Offset]
	line := 1 + strings.Count(before, "\n")
	col := 1 + utf8.RuneCountInString(before[strings.LastIndex(before, "\n")+1:])
	return p.Line == line && p.Column == col
}

func span(r *R, text string, what string, a, b lexer.Position) string {
	if !posOK(text, a) || !posOK(text, b) || b.Offset < a.Offset {
		r.Failf("the position of %s is wrong: offset %d line %d column %d to offset %d line %d column %d\n%s",
			what, a.Offset, a.Line, a.Column, b.Offset, b.Line, b.Column, text)
	}
	return toksOf(text[a.Offset:b.Offset])
}

func unquoteName(s string) string {
	return strings.ReplaceAll(strings.TrimPrefix(s, "-"), "`", "")
}

func argNames(args []*Arg) string {
	r := []string{}
	for _, a := range args {
		r = append(r, a.Name+" = "+toksOf(renderArg(a)))
	}
	return strings.Join(r, ",")
}

// wantSites lists the call sites of a statement.
func wantSites(s *St) []string {
	out := []string{}
	onE := func(e *E) {
		if e.K == "sym" {
			out = append(out, "symbol "+e.S+" () "+toksOf((&E{K: "sym", S: e.S, Neg: e.Neg}).String()))
		}
		if e.K == "call" {
			c := *e
			c.St = 0
			out = append(out, "function "+e.S+" ("+argNames(e.P)+") "+toksOf(c.String()))
		}
	}
	onF := func(f *From) {
		if f.Call {
			out = append(out, "plugin "+f.Name+" ("+argNames(f.P)+") "+toksOf(f.String()))
		} else {
			out = append(out, "symbol "+f.Name+" () "+toksOf(f.String()))
		}
	}
	onceE(s.E, onE, onF)
	onceQ(s.Q, onE, onF)
	for _, p := range s.Params {
		if p.Def != nil {
			onceA(p.Def, onE, onF)
		}
	}
	sort.Strings(out)
	return out
}

// onceE visits every expression and every FROM exactly once.
func onceE(e *E, f func(*E), g func(*From)) {
	if e == nil {
		return
	}
	f(e)
	for _, x := range e.A {
		onceE(x, f, g)
	}
	for _, t := range e.T {
		onceE(t.I, f, g)
		onceE(t.J, f, g)
	}
	for _, a := range e.P {
		onceA(a, f, g)
	}
	onceQ(e.Q, f, g)
}

func onceA(a *Arg, f func(*E), g func(*From)) {
	onceE(a.E, f, g)
	onceQ(a.Q, f, g)
	for _, x := range a.A {
		onceE(x, f, g)
	}
}

func onceQ(q *Q, f func(*E), g func(*From)) {
	if q == nil {
		return
	}
	g(q.From)
	for _, a := range q.From.P {
		onceA(a, f, g)
	}
	for _, c := range q.Cols {
		onceE(c.E, f, g)
		onceQ(c.Q, f, g)
	}
	onceE(q.Where, f, g)
	for _, x := range q.Group {
		onceE(x, f, g)
	}
}

func checkSites(r *R, c *siteCase) {
	vqls, err := vfilter.MultiParse(c.Text)
	if err != nil {
		r.Failf("the program does not parse: %v\n%s", err, c.Text)
	}
	if len(vqls) != len(c.Sts) {
		r.Failf("%d statements were parsed as %d:\n%s", len(c.Sts), len(vqls), c.Text)
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	n := 0
	for i, s := range c.Sts {
		want := wantSites(s)
		opts := vfilter.CollectAllInfo
		if c.Lines {
			opts = vfilter.DefaultFormatOptions
			opts.CollectCallSites = true
			opts.CollectDefinitionSites = true
		}
		visitor := vfilter.NewVisitor(scope, opts)
		visitor.Visit(vqls[i])
		got := []string{}
		for _, cs := range visitor.CallSites {
			names := []string{}
			for _, a := range cs.Args {
				sp := span(r, c.Text, "argument "+a.Name, a.Pos.Pos, a.Pos.EndPos)
				if !strings.HasPrefix(sp, "ident:"+a.Name+" ") && !strings.HasPrefix(sp, "ident:`"+a.Name+"` ") {
					r.Failf("argument %s of %s is at %q\n%s", a.Name, cs.Name, sp, c.Text)
				}
				names = append(names, a.Name+" = "+sp)
			}
			got = append(got, cs.Type+" "+unquoteName(cs.Name)+" ("+strings.Join(names, ",")+") "+
				span(r, c.Text, cs.Type+" "+cs.Name, cs.Pos.Pos, cs.Pos.EndPos))
		}
		sort.Strings(got)
		if d := sameTokens(want, got); d != "" {
			r.Failf("the call sites of statement %d are wrong: %s\nprogram:\n%s", i, d, c.Text)
		}
		n += len(got)

		// Definitions.
		if s.Let != "" {
			if len(visitor.Definitions) != 1 {
				r.Failf("%d definitions were found in %s", len(visitor.Definitions), s)
			}
			d := visitor.Definitions[0]
			args, defs := []string{}, []string{}
			for _, a := range d.Args {
				sp := span(r, c.Text, "parameter "+a.Name, a.Pos.Pos, a.Pos.EndPos)
				if sp != toksOf(ident(a.Name)) && !strings.HasPrefix(sp, toksOf(ident(a.Name))+" ") {
					r.Failf("parameter %s of %s is at %q\n%s", a.Name, d.Name, sp, c.Text)
				}
				args = append(args, a.Name+" = "+sp)
			}
			defs = append(defs, d.Defaults...)
			wargs, wdefs := []string{}, []string{}
			for _, p := range s.Params {
				if p.Def != nil {
					wdefs = append(wdefs, p.Name)
					wargs = append(wargs, p.Name+" = "+toksOf(renderArg(p.Def)))
				} else {
					wargs = append(wargs, p.Name+" = "+toksOf(ident(p.Name)))
				}
			}
			sort.Strings(defs)
			sort.Strings(wdefs)
			if unquoteName(d.Name) != s.Let || strings.Join(args, ",") != strings.Join(wargs, ",") || strings.Join(defs, ",") != strings.Join(wdefs, ",") {
				r.Failf("the definition of %s is %s with parameters %v and defaults %v, expected %v and %v\n%s",
					s.Let, d.Name, args, defs, wargs, wdefs, c.Text)
			}
			if sp := span(r, c.Text, "definition of "+s.Let, d.Pos.Pos, d.Pos.EndPos); sp != toksOf(s.String()) {
				r.Failf("the definition of %s spans %q\n%s", s.Let, sp, c.Text)
			}
		} else if len(visitor.Definitions) != 0 {
			r.Failf("definitions were found in %s", s)
		}

		checkOutline(r, c.Text, s, vfilter.Outline(vqls[i]))
	}
	r.Count("call sites", n)
	r.NonTrivialIf(n >= 4)
}

// exprFunctions is the list of the outermost called functions.
func exprFunctions(e *E, out *[]*E) {
	if e == nil {
		return
	}
	if e.K == "call" {
		*out = append(*out, e)
		return
	}
	for _, x := range e.A {
		exprFunctions(x, out)
	}
	for _, t := range e.T {
		exprFunctions(t.I, out)
		exprFunctions(t.J, out)
	}
}

func checkOutline(r *R, text string, s *St, o *vfilter.OutlineInfo) {
	if o == nil {
		r.Failf("there is no outline of %s", s)
	}
	if s.Let == "" {
		outlineQ(r, text, s.Q, o)
		return
	}
	if o.Kind != vfilter.OutlineKindLet || unquoteName(o.Name) != s.Let {
		r.Failf("the outline of %s is %s %s", s, o.Kind, o.Name)
	}
	if sp := span(r, text, "LET "+s.Let, o.Pos, o.EndPos); sp != toksOf(s.String()) {
		r.Failf("the outline of LET %s spans %q\n%s", s.Let, sp, text)
	}
	if len(o.Children) != 1 {
		r.Failf("the outline of %s has %d values", s, len(o.Children))
	}
	if s.Q != nil {
		outlineQ(r, text, s.Q, o.Children[0])
	} else {
		outlineE(r, text, s.E, o.Children[0])
	}
}

func outlineE(r *R, text string, e *E, o *vfilter.OutlineInfo) {
	if sp := span(r, text, "expression "+e.String(), o.Pos, o.EndPos); sp != toksOf(e.String()) {
		r.Failf("the outline of %s spans %q\n%s", e, sp, text)
	}
	outlineFunctions(r, text, e, o)
}

func outlineFunctions(r *R, text string, e *E, o *vfilter.OutlineInfo) {
	calls := []*E{}
	exprFunctions(e, &calls)
	if len(calls) != len(o.Children) {
		r.Failf("the outline of %s has %d functions\n%s", e, len(o.Children), text)
	}
	for i, x := range calls {
		f := o.Children[i]
		y := *x
		y.St = 0
		if f.Kind != vfilter.OutlineKindFunction || unquoteName(f.Name) != x.S {
			r.Failf("function %d of %s is %s %s", i, e, f.Kind, f.Name)
		}
		if sp := span(r, text, "function "+x.S, f.Pos, f.EndPos); sp != toksOf(y.String()) {
			r.Failf("function %s spans %q\n%s", x.S, sp, text)
		}
	}
}

func outlineQ(r *R, text string, q *Q, o *vfilter.OutlineInfo) {
	if o.Kind != vfilter.OutlineKindQuery || unquoteName(o.Name) != q.From.Name {
		r.Failf("the outline of %s is %s %s", q, o.Kind, o.Name)
	}
	if sp := span(r, text, "query from "+q.From.Name, o.Pos, o.EndPos); sp != toksOf(q.String()) {
		r.Failf("the outline of %s spans %q\n%s", q, sp, text)
	}
	// A leading * has no outline.
	cols := q.Cols
	if len(cols) > 0 && cols[0].Star && len(o.Children) == len(cols)-1 {
		cols = cols[1:]
	}
	if len(cols) != len(o.Children) {
		r.Failf("the outline of %s has %d columns", q, len(o.Children))
	}
	for i, c := range cols {
		x := o.Children[i]
		if c.Q != nil {
			if x.Kind == vfilter.OutlineKindQuery {
				outlineQ(r, text, c.Q, x)
			}
			continue
		}
		if x.Kind != vfilter.OutlineKindColumn || unquoteName(x.Name) != c.As {
			r.Failf("column %d of %s is %s %q\n%s", i, q, x.Kind, x.Name, text)
		}
		if sp := span(r, text, "column "+c.String(), x.Pos, x.EndPos); sp != toksOf(c.String()) {
			r.Failf("column %s spans %q\n%s", c, sp, text)
		}
		if c.E != nil {
			outlineFunctions(r, text, c.E, x)
		}
	}
}

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "tokens: texts made of random pieces of the lexical grammar, valid or not (non-trivial: 5 tokens); sites: programs from the whole grammar with random white space and comments, " +
			"whose call sites, definitions and outline are compared with those of the generated syntax tree (non-trivial: 4 call sites).",
		Arms: []*Arm{
			arm("tokens", 80000, 1000000, genBytes, checkTokenize),
			arm("sites", 8000, 100000, func(t *rapid.T) *siteCase {
				g := newG(t)
				c := &siteCase{Lines: g.chance(30)}
				parts := []string{}
				p := 0
				if g.chance(50) {
					p = g.n(1, 15)
				}
				for n := g.n(1, 3); n > 0; n-- {
					s := g.synSt(g.n(0, 3))
					toks, ok := lexVQL(s.String())
					if !ok {
						panic("harness: does not lex: " + s.String())
					}
					c.Sts = append(c.Sts, s)
					if g.chance(p) {
						parts = append(parts, g.comment())
					}
					parts = append(parts, g.layout(toks, p))
				}
				c.Text = strings.Join(parts, "\n")
				return c
			}, checkSites),
		},
	})
}
