package props

import (
	"context"
	"fmt"
	"regexp"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
)

// Regular expressions: many of them in one scope, against Go's.

type regexCase struct {
	Pats [][]byte
	Subj [][]byte
	List bool // the subjects are also used as one list
	Var  bool // the pattern comes from rows
}

var regexPieces = []string{"\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\b", "\\B", "a", "B", "c", "[a-c]", "[^a-c]", "(?-i:a)", "(?-i:B)", ".", "\\.", "$", "^", "|", "+",
	"*", "?", "(", ")", "{2}", "\\x41", "\\pL", "\\PL", "\\A", "\\z", "_", "é", "(?s:.)", "\\", "[", "]", " ", "1", "\n", "'", "\"", "__re", "(?i)", "(?P<a>a)"}

var regexGood = []string{"\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\b", "\\B", "a", "A", "B", "c", "[a-c]", "[^A-C]", ".", "\\.", "$", "^", "|", "\\pL", "\\PL", "a+", "1*", "É"}

var subjPieces = []string{"a", "A", "b", "C", "é", "É", "1", " ", "\n", ".", "_", "-", "\\", "x"}

func genRegex(g *G) *regexCase {
	c := &regexCase{List: g.chance(40), Var: g.chance(50)}
	pieces := regexGood
	if g.chance(25) {
		pieces = regexPieces
	}
	for n := g.n(1, 6); n > 0; n-- {
		p := ""
		if len(c.Pats) > 0 && g.chance(35) {
			p = swapCase(string(c.Pats[g.n(0, len(c.Pats)-1)]))
		} else {
			for k := g.n(0, 4); k > 0; k-- {
				p += g.pick(pieces...)
			}
		}
		if g.chance(10) {
			p += " "
		}
		c.Pats = append(c.Pats, []byte(p))
	}
	for n := g.n(1, 4); n > 0; n-- {
		s := ""
		for k := g.n(0, 5); k > 0; k-- {
			s += g.pick(subjPieces...)
		}
		c.Subj = append(c.Subj, []byte(s))
	}
	return c
}

func checkRegex(r *R, c *regexCase) {
	env := ordereddict.NewDict()
	cols, want := []string{}, []string{}
	rows := []interface{}{}
	list := []interface{}{}
	match := func(p string, s string) bool {
		if p == "" || p == "." || p == ".*" {
			return true
		}
		re, err := regexp.Compile("(?i)" + p)
		return err == nil && re.MatchString(s)
	}
	for i, s := range c.Subj {
		env.Set("s"+itoa(i), string(s))
		list = append(list, string(s))
	}
	env.Set("l", list)
	yes, no := 0, 0
	for i, p := range c.Pats {
		env.Set("p"+itoa(i), string(p))
		rows = append(rows, ordereddict.NewDict().Set("p", string(p)))
		any := false
		line := []string{}
		for j, s := range c.Subj {
			ok := match(string(p), string(s))
			any = any || ok
			if ok {
				yes++
			} else {
				no++
			}
			line = append(line, fmt.Sprint(ok))
			if !c.Var {
				cols = append(cols, fmt.Sprintf("s%d =~ p%d AS c%d_%d", j, i, i, j))
			}
		}
		if c.List {
			line = append(line, fmt.Sprint(any))
			if !c.Var {
				cols = append(cols, fmt.Sprintf("l =~ p%d AS c%d", i, i))
			}
		}
		want = append(want, line...)
	}
	env.Set("rows", rows)
	text := "SELECT " + strings.Join(cols, ", ") + " FROM scope()"
	if c.Var {
		for j := range c.Subj {
			cols = append(cols, fmt.Sprintf("s%d =~ p AS c%d", j, j))
		}
		if c.List {
			cols = append(cols, "l =~ p AS c")
		}
		text = "SELECT " + strings.Join(cols, ", ") + " FROM rows"
	}
	got := []string{}
	msg := inBubble(r.T, func() {
		scope := vfilter.NewScope().AppendVars(env)
		defer scope.Close()
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(err)
		}
		for row := range vqls[0].Eval(context.Background(), scope) {
			d := vfilter.RowToDict(context.Background(), scope, row)
			for _, k := range d.Keys() {
				v, _ := d.Get(k)
				got = append(got, fmt.Sprint(v))
			}
		}
	})
	if msg != "" {
		r.Failf("%s", msg)
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		r.Failf("the matches are wrong.\n%s\npatterns %q subjects %q\nexpected %v\ngot      %v", text, c.Pats, c.Subj, want, got)
	}
	r.Count("matches", yes)
	r.NonTrivialIf(yes > 0 && no > 0 && len(c.Pats) > 1)
}
