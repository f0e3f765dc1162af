package props

import (
	"strings"

	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
)

// layoutCase is a program and another way to print it.
type layoutCase struct {
	Env  *Env
	Sts  []*St
	Text string
}

// checkLayout: white space, comments and the case of keywords have no
// meaning.
func checkLayout(r *R, c *layoutCase) {
	text := program(c.Sts)
	want, _, msg := runText(r.T, c.Env, text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text)
	}
	got, _, msg := runText(r.T, c.Env, c.Text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, c.Text)
	}
	if len(want) != len(got) {
		r.Failf("%d statements were parsed as %d:\n%s", len(want), len(got), c.Text)
	}
	n := 0
	for i := range want {
		n += len(want[i])
		if !sameRows(want[i], got[i]) {
			r.Failf("statement %d gives other rows when it is laid out in another way.\nprogram:\n%s\nlaid out:\n%s\nenv: %s\nrows:\n%s\nrows of the other:\n%s",
				i, text, c.Text, show(c.Env.obj()), showRows(want[i]), showRows(got[i]))
		}
	}
	// One statement or all of them, with comments or without: the same.
	toks, _ := lexVQL(c.Text)
	if len(c.Sts) == 1 {
		v, err := vfilter.Parse(c.Text)
		if err != nil {
			r.Failf("Parse fails and MultiParse does not: %v\n%s", err, c.Text)
		}
		sc := vfilter.NewScope()
		ft, _ := lexVQL(vfilter.FormatToString(sc, v))
		sc.Close()
		if d := sameTokens(normToks(toks, false), normToks(ft, false)); d != "" {
			r.Failf("Parse changes the program: %s\n%s", d, c.Text)
		}
	}
	r.Count("rows", n)
	r.NonTrivialIf(n >= 1 && c.Text != text)
}

// acceptCase is the text of a program of the grammar.
type acceptCase struct {
	Text string
	N    int // statements
}

// checkAccept: what the grammar gives is accepted, with all its tokens.
func checkAccept(r *R, c *acceptCase) {
	vqls, err := vfilter.MultiParse(c.Text)
	if err != nil {
		r.Failf("MultiParse rejects a program: %v\n%s", err, c.Text)
	}
	if len(vqls) != c.N {
		r.Failf("%d statements were parsed as %d:\n%s", c.N, len(vqls), c.Text)
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	parts := []string{}
	for _, v := range vqls {
		parts = append(parts, vfilter.FormatToString(scope, v))
	}
	if c.N == 1 {
		v, err := vfilter.Parse(c.Text)
		if err != nil {
			r.Failf("Parse rejects a program: %v\n%s", err, c.Text)
		}
		if got := vfilter.FormatToString(scope, v); got != parts[0] {
			r.Failf("Parse and MultiParse differ on:\n%s\nthey give:\n%s\n%s", c.Text, got, parts[0])
		}
	}
	all := strings.Join(parts, "\n")
	toks, ok := lexVQL(c.Text)
	otoks, ook := lexVQL(all)
	if !ok || !ook {
		r.Failf("the text of a program does not lex.\nprogram:\n%s\nformatted:\n%s", c.Text, all)
	}
	if d := sameTokens(dropStarComma(normToks(toks, false)), dropStarComma(normToks(otoks, false))); d != "" {
		r.Failf("a part of the program is ignored: %s\ntext:\n%s\nparsed as:\n%s", d, c.Text, all)
	}
	r.Count("tokens", len(toks))
	r.NonTrivialIf(len(toks) >= 8)
}

func genAccept(t *rapid.T) *acceptCase {
	g := newG(t)
	c := &acceptCase{N: g.n(1, 3)}
	parts := []string{}
	for i := 0; i < c.N; i++ {
		toks, ok := lexVQL(g.synSt(g.n(0, 3)).String())
		if !ok {
			panic("harness: does not lex")
		}
		parts = append(parts, g.layout(toks, 0))
	}
	c.Text = strings.Join(parts, g.pick("\n", " ", "\t", "\r\n", "\n\n"))
	return c
}

// mutCase is a text which may or may not be a program.
type mutCase struct {
	Toks []string
	Seps []string
}

func (c *mutCase) text() string {
	s := ""
	for i, t := range c.Toks {
		if i > 0 {
			s += c.Seps[i%len(c.Seps)]
		}
		s += t
	}
	return s
}

// checkMutant: a text is either rejected with an error, or nothing in it is
// ignored.
func checkMutant(r *R, c *mutCase) {
	text := c.text()
	toks, ok := lexVQL(text)
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		r.Class("rejected")
		if strings.TrimSpace(err.Error()) == "" {
			r.Failf("the error for %q has no message", text)
		}
		if _, err := vfilter.MultiParseWithComments(text); err == nil {
			r.Failf("MultiParse rejects %q and MultiParseWithComments does not", text)
		}
		if _, err := vfilter.Parse(text); err == nil {
			r.Failf("MultiParse rejects %q and Parse does not", text)
		}
		r.NonTrivialIf(len(toks) >= 5)
		return
	}
	if !ok {
		r.Failf("%q has invalid tokens and is accepted", text)
	}
	r.Class("accepted")
	scope := vfilter.NewScope()
	defer scope.Close()
	parts := []string{}
	for _, v := range vqls {
		parts = append(parts, vfilter.FormatToString(scope, v))
	}
	all := strings.Join(parts, "\n")
	otoks, ok := lexVQL(all)
	if !ok {
		r.Failf("the text of a parsed program does not lex.\nprogram:\n%s\nformatted:\n%s", text, all)
	}
	if d := sameTokens(dropStarComma(normToks(toks, false)), dropStarComma(normToks(otoks, false))); d != "" {
		r.Failf("a part of the text is ignored: %s\ntext:\n%s\nparsed as:\n%s", d, text, all)
	}
	_, err = vfilter.Parse(text)
	if (err == nil) != (len(vqls) == 1) {
		r.Failf("MultiParse finds %d statements in %q, Parse: %v", len(vqls), text, err)
	}
	r.NonTrivialIf(len(toks) >= 5)
}

// dropStarComma removes the comma after the * of a SELECT, which is
// optional.
func dropStarComma(toks []string) []string {
	r := []string{}
	for i, t := range toks {
		if t == "op:," && i >= 2 && toks[i-1] == "op:*" && toks[i-2] == "SELECT" {
			continue
		}
		r = append(r, t)
	}
	return r
}

var mutTokens = []string{"SELECT", "FROM", "WHERE", "AND", "OR", "||", "|", "&&", "NOT", "AS", "IN", "LIMIT", "NULL", "DESC", "GROUP BY", "ORDER BY", "TRUE", "LET", "EXPLAIN",
	"a", "`u v`", "-x", "1", "-1", "1.5", "'s'", "'''m'''", "=", "<=", "<", "=~", "=>", "<>", "+", "-", "*", "/", "%", ".", ",", ":", "(", ")", "[", "]", "{", "}", "f(", "a=", "1, 2"}

func genMutant(t *rapid.T) *mutCase {
	g := newG(t)
	c := &mutCase{Seps: []string{" "}}
	parts := []string{}
	for n := g.n(1, 2); n > 0; n-- {
		parts = append(parts, g.synSt(g.n(0, 2)).String())
	}
	toks, ok := lexVQL(strings.Join(parts, "\n"))
	if !ok {
		panic("harness: does not lex: " + strings.Join(parts, "\n"))
	}
	for _, t := range toks {
		c.Toks = append(c.Toks, t.S)
	}
	for n := g.n(1, 3); n > 0 && len(c.Toks) > 0; n-- {
		i := g.n(0, len(c.Toks)-1)
		switch g.n(0, 5) {
		case 0:
			c.Toks = append(c.Toks[:i:i], c.Toks[i+1:]...)
		case 1:
			// Once more.
			c.Toks = append(c.Toks[:i:i], append([]string{c.Toks[i]}, c.Toks[i:]...)...)
		case 2:
			c.Toks = append(c.Toks[:i:i], append([]string{g.pick(mutTokens...)}, c.Toks[i:]...)...)
		case 3:
			c.Toks[i] = g.pick(mutTokens...)
		case 4:
			j := g.n(0, len(c.Toks)-1)
			c.Toks[i], c.Toks[j] = c.Toks[j], c.Toks[i]
		case 5:
			// A run of tokens again.
			j := i + g.n(1, 4)
			if j > len(c.Toks) {
				j = len(c.Toks)
			}
			c.Toks = append(c.Toks[:j:j], append(append([]string{}, c.Toks[i:j]...), c.Toks[j:]...)...)
		}
	}
	return c
}

// checkBytes: whatever the text, the parsers return.
func checkBytes(r *R, c *bytesCase) {
	text := string(c.Text)
	_, err1 := vfilter.MultiParse(text)
	_, err2 := vfilter.MultiParseWithComments(text)
	_, err3 := vfilter.Parse(text)
	_, _ = vfilter.ParseLambda(text)
	if err3 == nil && err1 != nil {
		r.Failf("Parse accepts %q and MultiParse does not: %v", text, err1)
	}
	if err2 == nil && err1 != nil {
		r.Failf("MultiParseWithComments accepts %q and MultiParse does not: %v", text, err1)
	}
	_, ok := lexVQL(text)
	if !ok && err1 == nil {
		r.Failf("%q has invalid tokens and is accepted", text)
	}
	r.NonTrivialIf(len(text) >= 10)
}

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "layout: programs and the same programs with other white space, keyword case and comments (non-trivial: a row is produced); " +
			"accept: programs of the whole grammar, all of which must be accepted with all their tokens (non-trivial: 8 tokens); " +
			"mutants: tokens of valid programs deleted, repeated, replaced, inserted or exchanged, with the formatted tokens of what is accepted as the oracle (non-trivial: 5 tokens); " +
			"bytes: texts of random pieces (non-trivial: 10 bytes).",
		Arms: []*Arm{
			arm("layout", 6000, 100000, func(t *rapid.T) *layoutCase {
				g := newG(t)
				c := &layoutCase{Env: g.stdEnv()}
				o := qopt{nested: true, limit: g.chance(50), order: true, group: true}
				o.agg = !o.limit
				names := []string{"X", "Y", "p q", "where"}
				for n := g.n(0, 2); n > 0; n-- {
					if g.chance(50) {
						c.Sts = append(c.Sts, g.tableLet(names[n], g.n(0, 1), o))
					} else {
						c.Sts = append(c.Sts, g.exprLet(names[n], g.pick("int", "num", "str", "bool", "list", "obj"), g.n(0, 3)))
					}
				}
				q, _ := g.query(g.n(0, 2), o)
				c.Sts = append(c.Sts, &St{Q: q})
				parts := []string{}
				p := g.n(0, 12)
				for _, s := range c.Sts {
					toks, ok := lexVQL(s.String())
					if !ok {
						panic("harness: does not lex: " + s.String())
					}
					parts = append(parts, g.layout(toks, p))
				}
				c.Text = strings.Join(parts, g.pick("\n", " ", "\t", " /* x */ "))
				return c
			}, checkLayout),
			arm("accept", 20000, 400000, genAccept, checkAccept),
			arm("mutants", 30000, 600000, genMutant, checkMutant),
			arm("bytes", 30000, 600000, genBytes, checkBytes),
		},
	})
}
