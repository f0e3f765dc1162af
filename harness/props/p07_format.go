package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
)

// textCase is the text of a program.
type textCase struct {
	Text string
}

// formatAll formats every statement of a program.
func formatAll(text string) (out []string, err error) {
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		return nil, err
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	for _, v := range vqls {
		out = append(out, vfilter.FormatToString(scope, v))
	}
	return out, nil
}

// checkFormatText: formatting keeps every token, and formatting again
// changes nothing.
func checkFormatText(r *R, c *textCase) {
	toks, ok := lexVQL(c.Text)
	if !ok {
		r.Class("does not lex")
		return
	}
	out, err := formatAll(c.Text)
	if err != nil {
		r.Failf("a program of the grammar does not parse: %v\n%s", err, c.Text)
	}
	all := strings.Join(out, "\n")
	otoks, ok := lexVQL(all)
	if !ok {
		r.Failf("the formatted text does not lex.\nprogram:\n%s\nformatted:\n%s", c.Text, all)
	}
	if d := sameTokens(normToks(toks, false), normToks(otoks, false)); d != "" {
		r.Failf("FormatToString changes the program: %s\nprogram:\n%s\nformatted:\n%s", d, c.Text, all)
	}
	again, err := formatAll(all)
	if err != nil {
		r.Failf("the formatted text does not parse: %v\nprogram:\n%s\nformatted:\n%s", err, c.Text, all)
	}
	if s := strings.Join(again, "\n"); s != all {
		r.Failf("formatting again changes the text.\nprogram:\n%s\nformatted:\n%s\nagain:\n%s", c.Text, all, s)
	}
	r.Count("tokens", len(toks))
	r.Count("statements", len(out))
	r.NonTrivialIf(len(toks) >= 12)
}

// checkFormatRun: the formatted program gives the rows of the program.
func checkFormatRun(r *R, c *progCase) {
	text := program(c.Sts)
	out, err := formatAll(text)
	if err != nil {
		r.Failf("the program does not parse: %v\n%s", err, text)
	}
	all := strings.Join(out, "\n")
	want, _, msg := runText(r.T, c.Env, text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text)
	}
	got, _, msg := runText(r.T, c.Env, all)
	if msg != "" {
		r.Failf("%s\nformatted program:\n%s", msg, all)
	}
	n := 0
	if len(want) != len(got) {
		r.Failf("%d statements were formatted as %d:\n%s\nformatted:\n%s", len(want), len(got), text, all)
	}
	for i := range want {
		n += len(want[i])
		if !sameRows(want[i], got[i]) {
			r.Failf("statement %d gives other rows when it is formatted.\nprogram:\n%s\nformatted:\n%s\nenv: %s\nrows:\n%s\nrows of the formatted program:\n%s",
				i, text, all, show(c.Env.obj()), showRows(want[i]), showRows(got[i]))
		}
	}
	r.Count("rows", n)
	r.NonTrivialIf(n >= 1)
}

// nameCase is a query with columns that have no alias.
type nameCase struct {
	Env *Env
	Es  []*E
}

// checkColumnNames: the name of a column without alias is the text of its
// expression: it means the same, and the column can be selected by it.
func checkColumnNames(r *R, c *nameCase) {
	q := &Q{From: from("rows")}
	for _, e := range c.Es {
		q.Cols = append(q.Cols, cE(e, ""))
	}
	text := q.String()
	res, _, msg := runText(r.T, c.Env, text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text)
	}
	rows := res[0]
	if len(rows) == 0 {
		return
	}
	first, _ := rows[0].(*Obj)
	if first == nil {
		r.Failf("a row is not a dict: %s", show(rows[0]))
	}
	// The names in order; equal expressions share one column.
	want := []string{}
	for _, e := range c.Es {
		toks, ok := lexVQL(e.String())
		if !ok {
			r.Failf("harness: %s does not lex", e)
		}
		n := strings.Join(normToks(toks, false), " ")
		for i, x := range want {
			if x == n {
				want = append(want[:i], want[i+1:]...)
				break
			}
		}
		want = append(want, n)
	}
	if len(first.Keys) > len(want) {
		r.Failf("the row has %d columns, there are %d expressions.\nprogram:\n%s\nrow: %s", len(first.Keys), len(want), text, show(first))
	}
	if len(first.Keys) == len(want) {
		for i, k := range first.Keys {
			if !columnMatches(k, want[i]) {
				r.Failf("column %d of %s is called %q", i, text, k)
			}
		}
	}
	// Selecting by the name gives the same cells.
	cols := []string{}
	for i, k := range first.Keys {
		cols = append(cols, fmt.Sprintf("`%s` AS c%d", k, i))
		if strings.Contains(k, "`") {
			return
		}
	}
	text2 := "SELECT " + strings.Join(cols, ", ") + " FROM foreach(row={ " + text + " })"
	res2, _, msg := runText(r.T, c.Env, text2)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text2)
	}
	if len(res2[0]) != len(rows) {
		r.Failf("%d rows became %d.\nprogram:\n%s", len(rows), len(res2[0]), text2)
	}
	for i, row := range rows {
		a, b := row.(*Obj), res2[0][i].(*Obj)
		for j, k := range a.Keys {
			if !same(a.Vals[k], b.Vals[fmt.Sprintf("c%d", j)]) {
				r.Failf("column %q can not be selected by its name: %s instead of %s\nprogram:\n%s",
					k, show(b.Vals[fmt.Sprintf("c%d", j)]), show(a.Vals[k]), text2)
			}
		}
	}
	r.NonTrivialIf(len(first.Keys) >= 2)
}

func columnMatches(name, want string) bool {
	toks, ok := lexVQL(name)
	if ok && strings.Join(normToks(toks, false), " ") == want {
		return true
	}
	// The name of a quoted symbol has no quotes.
	return "ident:`"+name+"`" == want
}

func init() {
	register(&Prop{
		ID: "C07",
		Rule: "syntax: programs from the whole grammar, printed with random white space and keyword case (non-trivial: 12 tokens or more); " +
			"rows: programs with queries, LETs, plugins, GROUP BY, ORDER BY (non-trivial: a row is produced); " +
			"names: queries whose columns have no alias (non-trivial: two columns).",
		Arms: []*Arm{
			arm("syntax", 12000, 100000, func(t *rapid.T) *textCase {
				g := newG(t)
				parts := []string{}
				for n := g.n(1, 3); n > 0; n-- {
					s := g.synSt(g.n(0, 3)).String()
					toks, ok := lexVQL(s)
					if !ok {
						panic("harness: does not lex: " + s)
					}
					parts = append(parts, g.layout(toks, 0))
				}
				return &textCase{strings.Join(parts, "\n")}
			}, checkFormatText),
			arm("rows", 6000, 80000, func(t *rapid.T) *progCase {
				g := newG(t)
				c := &progCase{Env: g.stdEnv()}
				o := qopt{nested: true, limit: g.chance(50), order: true, group: true}
				o.agg = !o.limit
				// No name is used twice: it would be recursive.
				names := []string{"X", "Y", "p q", "where"}
				for n := g.n(0, 3); n > 0; n-- {
					name := names[n]
					if g.chance(50) {
						c.Sts = append(c.Sts, g.tableLet(name, g.n(0, 1), o))
					} else {
						c.Sts = append(c.Sts, g.exprLet(name, g.pick("int", "num", "str", "bool", "list", "obj"), g.n(0, 3)))
					}
				}
				q, _ := g.query(g.n(0, 2), o)
				c.Sts = append(c.Sts, &St{Q: q})
				return c
			}, checkFormatRun),
			arm("names", 6000, 80000, func(t *rapid.T) *nameCase {
				g := newG(t)
				c := &nameCase{Env: g.stdEnv()}
				g.with(rowCols, func() {
					for n := g.n(1, 4); n > 0; n-- {
						c.Es = append(c.Es, g.expr(g.pick("int", "num", "str", "bool", "list", "obj", "any"), g.n(0, 3)))
					}
				})
				return c
			}, checkColumnNames),
		},
	})
}
