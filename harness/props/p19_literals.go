package props

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
)

// Literals and quoted names.

// strPiece is a piece of a string literal, and the bytes it stands for.
type strPiece struct{ Src, Val []byte }

type strCase struct {
	Style  string // ' " '''
	Pieces []strPiece
	Where  int
}

func (c *strCase) src() string {
	s := c.Style
	for _, p := range c.Pieces {
		s += string(p.Src)
	}
	return s + c.Style
}

func (c *strCase) val() string {
	s := ""
	for _, p := range c.Pieces {
		s += string(p.Val)
	}
	return s
}

func (g *G) rawByte(not string) []byte {
	for {
		var s []byte
		switch g.n(0, 5) {
		case 0:
			s = []byte{byte(g.n(0, 255))}
		case 1:
			s = []byte(g.pick("é", "世", "😀", "\u2028", "\n", "\t", "\r", "\x00", "\xff", "\xc3", "`", "--", "//", "/*", "*/", "%", "'", "\"", "\\"))
		default:
			s = []byte(g.pick("a", "B", "0", " ", "x", ".", ",", "{", "}", "(", "f", "n", "r"))
		}
		if !strings.ContainsAny(string(s), not) {
			return s
		}
	}
}

func genStr(t *rapid.T) *strCase {
	g := newG(t)
	c := &strCase{Style: g.pick("'", "\"", "'''"), Where: g.n(0, 5)}
	n := g.n(0, 8)
	for i := 0; i < n; i++ {
		if c.Style == "'''" {
			b := g.rawByte("'")
			if g.chance(20) && i > 0 && i < n-1 {
				// One or two quotes do not end it.
				b = []byte(g.pick("'a", "''b"))
			}
			c.Pieces = append(c.Pieces, strPiece{b, b})
			continue
		}
		if g.chance(50) {
			// The other quote needs no escape.
			b := g.rawByte(c.Style + "\\")
			c.Pieces = append(c.Pieces, strPiece{b, b})
			continue
		}
		switch g.n(0, 6) {
		case 0:
			e := g.pick("n", "r", "t")
			c.Pieces = append(c.Pieces, strPiece{[]byte("\\" + e), []byte(map[string]string{"n": "\n", "r": "\r", "t": "\t"}[e])})
		case 1, 2:
			b := byte(g.n(0, 255))
			f := g.pick("\\x%02x", "\\X%02x", "\\x%02X", "\\X%02X")
			c.Pieces = append(c.Pieces, strPiece{[]byte(fmt.Sprintf(f, b)), []byte{b}})
		case 3:
			// Not hexadecimal: kept as it is.
			s := g.pick("\\xag", "\\xg1", "\\xzz", "\\X 1", "\\x0_")
			c.Pieces = append(c.Pieces, strPiece{[]byte(s), []byte(s)})
		case 4:
			s := g.pick("'", "\"", "\\")
			c.Pieces = append(c.Pieces, strPiece{[]byte("\\" + s), []byte(s)})
		default:
			// Any other character stands for itself.
			b := g.rawByte("xXnrt")
			c.Pieces = append(c.Pieces, strPiece{append([]byte("\\"), b...), b})
		}
	}
	return c
}

func checkStr(r *R, c *strCase) {
	lit := c.src()
	want := c.val()
	q := ""
	switch c.Where {
	case 0:
		q = "SELECT " + lit + " AS A FROM scope()"
	case 1:
		q = "SELECT dict(a=" + lit + ").a AS A FROM scope()"
	case 2:
		q = "SELECT (1, " + lit + ")[1] AS A FROM scope()"
	case 3:
		q = "SELECT A FROM foreach(row={ SELECT " + lit + " AS A FROM scope() })"
	case 4:
		q = "LET X(p) = p SELECT X(p=" + lit + ") AS A FROM scope()"
	case 5:
		q = "LET X <= " + lit + " + '' SELECT X AS A FROM scope() WHERE A = " + lit
	}
	for round, text := range []string{q, reformatted(r, q)} {
		res, _, msg := runText(r.T, nil, text)
		if msg != "" {
			r.Failf("%s\nprogram:\n%q", msg, text)
		}
		rows := res[len(res)-1]
		if len(rows) != 1 || !same(rows[0], newObj().Set("A", want)) {
			r.Failf("the literal %q should be %q (round %d)\nprogram: %s\ngot: %s", lit, want, round, text, showRows(rows))
		}
	}
	esc := false
	for _, p := range c.Pieces {
		if string(p.Src) != string(p.Val) {
			esc = true
		}
	}
	r.NonTrivialIf(esc || len(want) >= 3)
}

// reformatted is the text of the parsed program.
func reformatted(r *R, text string) string {
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		r.Failf("the program %q does not parse: %v", text, err)
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	parts := []string{}
	for _, v := range vqls {
		parts = append(parts, vfilter.FormatToString(scope, v))
	}
	return strings.Join(parts, "\n")
}

// Numbers.

type numCase struct {
	Text    string
	IsFloat bool
	I       int64
}

func genNum(t *rapid.T) *numCase {
	g := newG(t)
	c := &numCase{}
	if g.chance(50) {
		switch g.n(0, 3) {
		case 0:
			c.I = rapid.Int64().Draw(t, "i")
		case 1:
			c.I = int64(1)<<uint(g.n(0, 62)) + int64(g.n(-1, 1))
		case 2:
			c.I = int64(g.n(-100, 100))
		default:
			c.I = []int64{9223372036854775807, -9223372036854775808, 9007199254740993, -9007199254740993, 0}[g.n(0, 4)]
		}
		if g.chance(30) && c.I != -9223372036854775808 {
			neg, i := "", c.I
			if i < 0 {
				neg, i = "-", -i
			}
			c.Text = neg + "0x" + fmt.Sprintf(g.pick("%x", "%X", "%02x", "%016X"), i)
			return c
		}
		c.Text = strconv.FormatInt(c.I, 10)
		return c
	}
	c.IsFloat = true
	neg := g.pick("", "", "-")
	whole := g.pick("0", "1", "12", "3", "9007199254740993", "123456789", "")
	frac := g.pick("0", "5", "25", "1", "75", "001", "3333333333333333", "9")
	c.Text = neg + whole + "." + frac
	if g.chance(40) {
		c.Text += g.pick("e", "E") + g.pick("", "+", "-") + g.pick("0", "1", "2", "10", "05", "300")
	} else if g.chance(20) && whole != "" {
		// No fraction.
		c.Text = neg + whole + g.pick("e", "E") + g.pick("", "+", "-") + g.pick("0", "3", "12")
	}
	return c
}

func checkNum(r *R, c *numCase) {
	var want V = c.I
	if c.IsFloat {
		f, err := strconv.ParseFloat(c.Text, 64)
		if err != nil {
			r.Class("out of range")
			return
		}
		want = f
	}
	for _, q := range []string{
		"SELECT " + c.Text + " AS A FROM scope()",
		"SELECT (2, " + c.Text + ")[1] AS A FROM scope() WHERE A = " + c.Text,
		"LET X = dict(a=" + c.Text + ") SELECT X.a AS A FROM scope() LIMIT 1",
	} {
		for _, text := range []string{q, reformatted(r, q)} {
			res, _, msg := runText(r.T, nil, text)
			if msg != "" {
				r.Failf("%s\nprogram:\n%q", msg, text)
			}
			rows := res[len(res)-1]
			if len(rows) != 1 || !same(rows[0], newObj().Set("A", want)) {
				r.Failf("the number %s should be %s\nprogram: %s\ngot: %s", c.Text, show(want), text, showRows(rows))
			}
		}
	}
	r.NonTrivialIf(len(c.Text) > 2)
}

// Names.

type quotedCase struct {
	N     [][]byte // distinct names
	Plain []bool   // written without quotes
}

func (c *quotedCase) q(i int) string {
	if c.Plain[i] {
		return string(c.N[i])
	}
	return "`" + string(c.N[i]) + "`"
}

func genNames(t *rapid.T) *quotedCase {
	g := newG(t)
	c := &quotedCase{}
	seen := map[string]bool{"NULL": true, "scope": true, "dict": true, "foreach": true, "emit": true, "env": true, "row": true, "q": true, "m": true, "v": true, "foo": true, "query": true, "rows": true}
	for len(c.N) < 8 {
		s := ""
		plain := false
		switch g.n(0, 3) {
		case 0:
			s = g.pick("select", "FROM", "And", "or", "not", "limit", "null", "desc", "group by", "Order By", "true", "let", "in", "as", "where", "explain")
		case 1:
			s = g.pick("v", "w", "_x", "Name", "x1", "LongerName") + itoa(g.n(0, 9))
			plain = g.chance(60)
		default:
			for n := g.n(1, 5); n > 0; n-- {
				s += string(g.rawByte("`"))
			}
		}
		if s == "" || seen[s] {
			continue
		}
		seen[s] = true
		c.N = append(c.N, []byte(s))
		c.Plain = append(c.Plain, plain)
	}
	return c
}

func checkNames(r *R, c *quotedCase) {
	q := c.q
	text := "LET " + q(0) + " = 5\n" +
		"LET " + q(1) + "(" + q(2) + ", " + q(3) + "=7) = (" + q(2) + ", " + q(3) + ")\n" +
		"LET " + q(4) + "(" + q(2) + ") = SELECT " + q(2) + " AS " + q(5) + ", " + q(2) + " + 1 FROM scope()\n" +
		"SELECT " + q(0) + " AS " + q(5) + ", " +
		q(1) + "(" + q(2) + "=2) AS " + q(6) + ", " +
		"dict(" + q(2) + "=3, " + q(3) + "=dict(" + q(0) + "=4)) AS " + q(7) + ", " +
		"{ SELECT " + q(5) + " FROM " + q(4) + "(" + q(2) + "=8) } AS q, " +
		"dict(" + q(6) + "=9)." + q(6) + " AS m, " +
		"foo." + q(6) + "." + q(7) + " AS v, " +
		q(0) + "\n" +
		"FROM foreach(row={ SELECT dict(" + q(6) + "=dict(" + q(7) + "=6)) AS foo FROM scope() })\n" +
		"WHERE " + q(5) + " = 5 ORDER BY " + q(5)
	want := newObj().
		Set(string(c.N[5]), int64(5)).
		Set(string(c.N[6]), []V{int64(2), int64(7)}).
		Set(string(c.N[7]), newObj().Set(string(c.N[2]), int64(3)).Set(string(c.N[3]), newObj().Set(string(c.N[0]), int64(4)))).
		Set("q", int64(8)).
		Set("m", int64(9)).
		Set("v", int64(6)).
		Set(string(c.N[0]), int64(5))
	text2 := "SELECT " + q(5) + " FROM foreach(row={ SELECT 1 AS " + q(5) + " FROM scope() }) GROUP BY " + q(5)
	want2 := newObj().Set(string(c.N[5]), int64(1))
	for i, w := range []*Obj{want, want2} {
		src := []string{text, text2}[i]
		for _, p := range []string{src, reformatted(r, src)} {
			res, run, msg := runText(r.T, nil, p)
			if msg != "" {
				r.Failf("%s\nprogram:\n%s", msg, p)
			}
			rows := res[len(res)-1]
			if len(rows) != 1 || !same(rows[0], w) {
				r.Failf("names are mixed up.\nprogram:\n%s\nexpected:\n%s\ngot:\n%s\nlog: %s", p, show(w), showRows(rows), run.Log)
			}
		}
	}
	// The tools see the same names.
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		r.Failf("%v", err)
	}
	for _, p := range c.Plain {
		if !p {
			r.NonTrivial()
		}
	}
	_ = vqls
}

func init() {
	register(&Prop{
		ID: "C19",
		Rule: "strings: literals of every style made of pieces whose bytes are known (non-trivial: an escape or 3 bytes); numbers: decimal, hexadecimal and floating point (non-trivial: 3 characters); " +
			"names: programs which define and use quoted names of any characters as variables, functions, parameters, columns, members and keys (non-trivial: one of them has to be quoted).",
		Assumptions: []string{"strconv.ParseFloat gives the value of a decimal fraction"},
		Arms: []*Arm{
			arm("strings", 20000, 400000, genStr, checkStr),
			arm("numbers", 8000, 150000, genNum, checkNum),
			arm("names", 6000, 100000, genNames, checkNames),
		},
	})
}
