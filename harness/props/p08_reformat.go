package props

import (
	"strings"

	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/reformat"
)

// reformatCase is a program with comments and the options to format it.
type reformatCase struct {
	Text           string
	Indent, Max    int
	Default, Lines bool
}

func (c *reformatCase) options() vfilter.FormatOptions {
	if c.Default {
		return vfilter.DefaultFormatOptions
	}
	return vfilter.FormatOptions{
		IndentWidthThreshold: c.Indent,
		MaxWidthThreshold:    c.Max,
		BreakLines:           c.Lines,
	}
}

func checkReformat(r *R, c *reformatCase) {
	toks, ok := lexVQL(c.Text)
	if !ok {
		r.Class("does not lex")
		return
	}
	comments := 0
	for _, t := range toks {
		if t.K == "comment" {
			comments++
		}
	}
	_, err := vfilter.MultiParse(c.Text)
	if err != nil {
		r.Failf("a program of the grammar does not parse: %v\n%s", err, c.Text)
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	out, err := reformat.ReFormatVQL(scope, c.Text, c.options())
	if err != nil {
		// Comments are not allowed everywhere.
		if comments == 0 {
			r.Failf("a program without comments can not be formatted: %v\n%s", err, c.Text)
		}
		r.Class("comment in a place which is not supported")
		return
	}
	otoks, ok := lexVQL(out)
	if !ok {
		r.Failf("the formatted text does not lex.\nprogram:\n%s\nformatted:\n%s", c.Text, out)
	}
	if d := sameTokens(normToks(toks, false), normToks(otoks, false)); d != "" {
		r.Failf("ReFormatVQL changes the program: %s\nprogram:\n%s\nformatted:\n%s", d, c.Text, out)
	}
	// A comment may move to the other side of a comma.
	if d := sameTokens(commasFirst(toks), commasFirst(otoks)); d != "" {
		r.Failf("ReFormatVQL changes the comments: %s\nprogram:\n%s\nformatted:\n%s", d, c.Text, out)
	}
	again, err := reformat.ReFormatVQL(scope, out, c.options())
	if err != nil {
		r.Failf("the formatted text can not be formatted: %v\nprogram:\n%s\nformatted:\n%s", err, c.Text, out)
	}
	// The analysis of a program collects every comment.
	vqls, err := vfilter.MultiParseWithComments(c.Text)
	if err != nil {
		r.Failf("a program which can be formatted does not parse: %v\n%s", err, c.Text)
	}
	visitor := vfilter.NewVisitor(scope, vfilter.CollectAllInfo)
	visitor.Visit(vqls)
	found := []string{}
	for _, x := range visitor.Comments {
		found = append(found, Tok{K: "comment", S: x}.norm())
	}
	all := []string{}
	for _, t := range toks {
		if t.K == "comment" {
			all = append(all, t.norm())
		}
	}
	if d := sameTokens(all, found); d != "" {
		r.Failf("the comments of the program are collected wrongly: %s\nprogram:\n%s", d, c.Text)
	}
	r.Class("formatted")
	if comments > 0 {
		r.Class("formatted with comments")
	}
	atoks, ok := lexVQL(again)
	if !ok || sameTokens(commasFirst(otoks), commasFirst(atoks)) != "" {
		r.Failf("formatting again changes the program.\nformatted:\n%s\nagain:\n%s", out, again)
	}
	// The spaces at the end of a comment count for the width of its line.
	if comments == 0 && again != out {
		r.Failf("formatting again changes the text.\nprogram:\n%s\nformatted:\n%s\nagain:\n%s", c.Text, out, again)
	}
	lines := strings.Count(out, "\n") + 1
	r.Count("lines", lines)
	r.Count("comments", comments)
	r.NonTrivialIf(len(toks) >= 12 && (lines >= 4 || comments > 0))
}

// commasFirst is the list of tokens with the commas before the comments
// that precede them.
func commasFirst(toks []Tok) []string {
	r := []string{}
	for _, t := range normToks(toks, true) {
		r = append(r, t)
		for i := len(r) - 1; i > 0 && r[i] == "op:," && strings.HasPrefix(r[i-1], "comment:"); i-- {
			r[i], r[i-1] = r[i-1], r[i]
		}
	}
	return r
}

func genReformat(comments bool) func(t *rapid.T) *reformatCase {
	return func(t *rapid.T) *reformatCase {
		g := newG(t)
		parts := []string{}
		p := 0
		if comments {
			p = g.n(1, 15)
		}
		for n := g.n(1, 3); n > 0; n-- {
			s := g.synSt(g.n(0, 3)).String()
			toks, ok := lexVQL(s)
			if !ok {
				panic("harness: does not lex: " + s)
			}
			if comments && g.chance(30) {
				parts = append(parts, g.comment())
			}
			q := 0
			if comments && g.chance(80) {
				q = p
			}
			parts = append(parts, g.layout(toks, q))
		}
		if comments && g.chance(20) {
			parts = append(parts, g.comment())
		}
		c := &reformatCase{Text: strings.Join(parts, "\n"), Default: g.chance(60)}
		if !c.Default {
			c.Indent = g.n(0, 80)
			c.Max = g.n(1, 120)
			c.Lines = g.chance(90)
		}
		return c
	}
}

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "Programs from the whole grammar with random white space and formatting options, without and with comments between any tokens; " +
			"non-trivial: 12 tokens or more and the result has 4 lines or a comment.",
		Arms: []*Arm{
			arm("plain", 6000, 60000, genReformat(false), checkReformat),
			arm("comments", 16000, 200000, genReformat(true), checkReformat),
		},
	})
}
