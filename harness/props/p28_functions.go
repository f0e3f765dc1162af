package props

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"

	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter/types"
)

// The functions every scope has.

// strArg is the text of an argument which is a string.
func (m *M) strArg(a *margs, name string, sc *Scope) string {
	v := m.plain(a.get(name), sc)
	if l, ok := v.([]V); ok && len(l) == 1 {
		v = l[0]
		if v == nil {
			giveUp("text of a list with NULL")
		}
	}
	if v == nil {
		return ""
	}
	s, ok := scalarText(v)
	if !ok {
		giveUp("text of a list or dict")
	}
	if _, ok := v.(*Obj); ok {
		if _, isList := m.plain(a.get(name), sc).([]V); !isList {
			giveUp("text of a dict")
		}
	}
	return s
}

func pieces(s string, cuts [][]int) []V {
	r, from := []V{}, 0
	for _, c := range cuts {
		r = append(r, s[from:c[0]])
		from = c[1]
	}
	return append(r, s[from:])
}

var builtins map[string]mfunc

func init() {
	builtins = map[string]mfunc{
		"get": func(m *M, sc *Scope, e *E, a *margs) V {
			path := strings.Split(m.strArg(a, "member", sc), ".")
			var v V
			if a.has("item") {
				v = unmat(a.get("item"))
			} else {
				// Without an item, a variable.
				if _, err := strconv.Atoi(path[0]); err == nil {
					giveUp("variable with the name of a number")
				}
				v, _ = sc.resolve(path[0])
				if _, ok := v.(*SE); ok {
					giveUp("definition by get")
				}
				path = path[1:]
			}
			for _, p := range path {
				i, err := strconv.Atoi(p)
				if err == nil {
					v = m.assoc(v, int64(i), sc)
				} else {
					v = m.assoc(v, p, sc)
				}
			}
			return v
		},

		"split": func(m *M, sc *Scope, e *E, a *margs) V {
			s := m.strArg(a, "string", sc)
			sep, str := "", ""
			if a.has("sep") {
				sep = m.strArg(a, "sep", sc)
			}
			if a.has("sep_string") {
				str = m.strArg(a, "sep_string", sc)
			}
			switch {
			case sep != "":
				re, err := regexp.Compile(sep)
				if err != nil {
					return nil
				}
				if s == "" {
					return []V{""}
				}
				cuts := [][]int{}
				for _, c := range re.FindAllStringIndex(s, -1) {
					// An empty match does not cut off an empty piece at the ends.
					if c[1] == 0 || (c[0] == len(s) && c[0] == c[1]) {
						continue
					}
					cuts = append(cuts, c)
				}
				return pieces(s, cuts)
			case str != "":
				cuts := [][]int{}
				for from := 0; ; {
					i := strings.Index(s[from:], str)
					if i < 0 {
						break
					}
					cuts = append(cuts, []int{from + i, from + i + len(str)})
					from += i + len(str)
				}
				return pieces(s, cuts)
			}
			return nil
		},

		"format": func(m *M, sc *Scope, e *E, a *margs) V {
			f := m.strArg(a, "format", sc)
			args := []interface{}{}
			if a.has("args") {
				v := m.plain(a.get("args"), sc)
				l, ok := v.([]V)
				if !ok {
					l = []V{v}
				}
				for _, x := range l {
					switch x.(type) {
					case nil:
						x = types.Null{}
					case []V, *Obj, *SQ, *Mat:
						giveUp("text of a list or dict")
					}
					args = append(args, x)
				}
			}
			r := fmt.Sprintf(f, args...)
			if strings.Contains(r, "%!") || strings.Contains(r, "{") {
				giveUp("a wrong format")
			}
			return r
		},

		"encode": func(m *M, sc *Scope, e *E, a *margs) V {
			v := a.get("string")
			s, ok := scalarText(v)
			if !ok || isObj(v) {
				giveUp("text of a list or dict")
			}
			switch m.strArg(a, "type", sc) {
			case "hex":
				return hex.EncodeToString([]byte(s))
			case "string":
				return s
			case "utf16":
				if len(s)%2 != 0 {
					giveUp("half a character")
				}
				u := []uint16{}
				var order binary.ByteOrder = binary.LittleEndian
				for i := 0; i < len(s); i += 2 {
					if i == 0 && s[:2] == "\xfe\xff" {
						order = binary.BigEndian
						continue
					}
					if i == 0 && s[:2] == "\xff\xfe" {
						continue
					}
					u = append(u, order.Uint16([]byte(s[i:])))
				}
				return string(utf16.Decode(u))
			}
			return nil
		},

		"timestamp": func(m *M, sc *Scope, e *E, a *margs) V {
			n := map[string]int64{}
			for _, k := range []string{"epoch", "winfiletime"} {
				if a.has(k) {
					v := a.get(k)
					if _, ok := asQuery(v); ok {
						return nil
					}
					i, ok := toInt(v)
					if !ok {
						return nil
					}
					n[k] = i
				}
			}
			// 100ns since 1601.
			sec := n["epoch"]
			if sec <= 0 {
				if n["winfiletime"] <= 0 {
					return nil
				}
				sec = n["winfiletime"]/10000000 - 11644473600
			}
			if sec > 250000000000 {
				giveUp("times far away")
			}
			return "time:" + time.Unix(sec, 0).UTC().Format(time.RFC3339Nano)
		},
	}
}

func utf16Val(g *G) *Val {
	u := utf16.Encode([]rune(g.pick("", "a", "hello", "é日", "😀 x", "\x00\x01")))
	if g.chance(15) {
		u = append(u, 0xd800) // half a pair
	}
	b := []byte{}
	var order binary.AppendByteOrder = binary.LittleEndian
	if g.chance(40) {
		order = binary.BigEndian
		b = append(b, 0xfe, 0xff)
	} else if g.chance(30) {
		b = append(b, 0xff, 0xfe)
	}
	for _, x := range u {
		b = order.AppendUint16(b, x)
	}
	return &Val{K: "str", S: b}
}

// fnCall is a call of one of the functions, or nil.
func (g *G) fnCall(ty string, depth int) *E {
	str := func() *E { return g.expr("str", depth) }
	switch ty {
	case "str":
		switch g.n(0, 6) {
		case 0, 1:
			fm, vals := g.formatOf()
			args := []*E{}
			for _, ty := range vals {
				args = append(args, g.expr(ty, depth))
			}
			c := eCall("format", aE("format", fm))
			switch {
			case len(args) == 0:
			case len(args) == 1 && g.chance(50):
				c.P = append(c.P, aE("args", args[0]))
			case g.chance(20) && len(vals) == 1:
				c.P = append(c.P, aE("args", g.expr("list", depth)))
			default:
				if len(args) == 1 {
					c.P = append(c.P, aE("args", eList(args...)))
				} else {
					c.P = append(c.P, &Arg{Name: "args", K: "arr", A: args})
				}
			}
			return c
		case 2, 3:
			x := str()
			if g.chance(25) {
				x = g.expr("num", depth)
			}
			return eCall("encode", aE("string", x), aE("type", &E{K: "str", S: g.pick("hex", "string", "hex", "nosuch")}))
		case 4:
			return eCall("encode", aE("string", eSym("u16")), aE("type", eStr("utf16")))
		case 5:
			return g.getCall(depth)
		default:
			return g.ifCall("str", depth)
		}
	case "list":
		c := eCall("split", aE("string", str()))
		sep := func() *E {
			if g.chance(70) {
				return eStr(g.pick("a", " ", ",", "l", "ll", "X", "", "\n", ".", "é", "aa", "1"))
			}
			return str()
		}
		switch g.n(0, 4) {
		case 0, 1:
			c.P = append(c.P, aE("sep_string", sep()))
		case 2, 3:
			re := g.pick("[a-c]", " +", "x*", ".", "l+|o", "", "^h", "(", "o$", "\\s", ",", "[^a-z]")
			c.P = append(c.P, aE("sep", &E{K: "str", S: re, St: g.n(0, 2)}))
			if g.chance(30) {
				c.P = append(c.P, aE("sep_string", sep()))
			}
		}
		return c
	case "int", "num":
		if g.chance(30) {
			if g.chance(50) {
				return eCall("len", aQ("list", g.tableQ()))
			}
			return eCall("len", aE("list", g.expr(g.pick("num", "any", "rows"), depth)))
		}
		if g.chance(50) {
			return eCall("len", aE("list", g.fnCall(g.pick("list", "str"), depth-1)))
		}
		return g.getCall(depth)
	case "bool":
		return g.ifCall("bool", depth)
	case "obj":
		return g.getCall(depth)
	}
	return g.getCall(depth)
}

func (g *G) tableQ() *Q {
	q := &Q{Cols: []*Col{{Star: true}}, From: fromCall("foreach", aE("row", eSym("rows")))}
	if g.chance(50) {
		q.Where = eCmp(g.pick("<", ">", "="), eSym("k"), eInt(g.n(0, 2)))
	}
	return q
}

func (g *G) ifCall(ty string, depth int) *E {
	c := eCall("if", aE("condition", g.expr(g.pick("bool", "any"), depth)))
	if g.chance(90) {
		c.P = append(c.P, aE("then", g.expr(ty, depth)))
	}
	if g.chance(80) {
		c.P = append(c.P, aE("else", g.expr(ty, depth)))
	}
	return c
}

func (g *G) getCall(depth int) *E {
	part := func() string { return g.pick("a", "b", "c", "0", "1", "-1", "5", "k", "zz", "") }
	path := part()
	for g.chance(40) {
		path += "." + part()
	}
	if g.chance(15) {
		// A variable.
		return eCall("get", aE("member", eStr(g.pick("d", "l", "s", "rows", "nosuch", "d."+path, "rows."+path, "l."+path))))
	}
	item := eSym("rows")
	if g.chance(60) {
		item = g.expr(g.pick("obj", "list", "any"), depth)
	}
	return eCall("get", aE("item", item), aE("member", eStr(path)))
}

// formatOf is a format and the types of its arguments.
func (g *G) formatOf() (*E, []string) {
	f, vals := "", []string{}
	for n := g.n(0, 3); n > 0; n-- {
		f += g.pick("", "x", " ", "%%", "é", "=")
		switch g.n(0, 5) {
		case 0:
			f += g.pick("%d", "%5d", "%-4d", "%05d", "%x", "%X", "%o", "%+d")
			vals = append(vals, "int")
		case 1:
			f += g.pick("%s", "%8s", "%-3s", "%.2s", "%q", "%x")
			vals = append(vals, "str")
		case 2:
			f += g.pick("%f", "%.2f", "%e", "%g", "%8.3f")
			vals = append(vals, "num")
		case 3:
			f += "%t"
			vals = append(vals, "bool")
		default:
			f += "%v"
			vals = append(vals, g.pick("num", "str", "bool", "any"))
		}
	}
	return &E{K: "str", S: f + g.pick("", "", "."), St: g.n(0, 2)}, vals
}

func genFunctions(t *rapid.T) *exprCase {
	g := newG(t)
	c := &exprCase{Env: g.stdEnv()}
	c.Env.add("u16", utf16Val(g))
	g.extra = append(g.extra, g.fnCall)
	if g.chance(40) {
		c.Rows = true
		g.declare("int", "a")
		g.declare("int", "k")
		g.declare("str", "b")
		g.declare("num", "c")
	}
	for n := g.n(1, 3); n > 0; n-- {
		if g.chance(12) {
			e := eCall("timestamp")
			if g.chance(70) {
				e.P = append(e.P, aE("epoch", g.pickE(eInt(g.n(0, 2000000000)), g.expr("num", 1), g.expr("any", 1))))
			}
			if g.chance(50) {
				e.P = append(e.P, aE("winfiletime", g.pickE(eNum(fmt.Sprint(116444736000000000+int64(g.n(-1000000000, 1000000000))*12345678)), g.expr("num", 1))))
			}
			c.Exprs = append(c.Exprs, e)
			continue
		}
		c.Exprs = append(c.Exprs, g.fnCall(g.pick("str", "list", "int", "any", "bool", "obj"), g.n(0, 2)))
	}
	return c
}

func (g *G) pickE(a ...*E) *E { return a[g.n(0, len(a)-1)] }

func checkFunctions(r *R, c *exprCase) {
	want, _, _, ok := differ(r, c.Env, exprPrograms(c))
	if !ok {
		return
	}
	calls := map[string]bool{}
	for _, e := range c.Exprs {
		walkE(e, func(x *E) {
			if x.K == "call" {
				calls[x.S] = true
				r.Count("call "+x.S, 1)
			}
		})
	}
	for _, row := range want[0] {
		for _, v := range row.(*Obj).Vals {
			if v != nil {
				r.NonTrivialIf(len(calls) > 0)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID: "C28",
		Rule: "Random expressions which nest the functions format, split, get, encode, len, timestamp, if and dict with each other, with all operators and with queries; " +
			"non-trivial: a result which is not NULL. " +
			"len: len of Go values of every kind, in variables, members, lists, columns and parameters (non-trivial: not empty).",
		Assumptions: []string{"fmt.Sprintf, regexp and unicode/utf16 of Go's library"},
		Arms: []*Arm{
			arm("calls", 40000, 800000, genFunctions, checkFunctions),
			arm("len", 8000, 100000, func(t *rapid.T) *lenCase { return genLen(newG(t)) }, checkLen),
		},
	})
}
