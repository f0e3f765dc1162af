package props

import (
	"fmt"
	"log"
	"regexp"
	"strings"

	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Diagnostics: what is wrong in a program is logged when it is evaluated, with
// the name it is about, and nothing else is.

// mistakes plants mistakes at random places of a program, each about a name
// of its own.
func (g *G) mistakes(c *progCase) {
	n := 0
	name := func(prefix string) string { n++; return prefix + itoa(n) }
	p := g.n(3, 30)

	queries := []*Q{}
	exprs := []*E{}
	keep := map[*E]bool{}
	for _, s := range c.Sts {
		walkQueries(s.Q, func(q *Q) { queries = append(queries, q) })
		walkSt(s, func(e *E) {
			exprs = append(exprs, e)
			for _, t := range e.T {
				// What comes after a part which is not there is not evaluated.
				walkE(t.I, func(e *E) { keep[e] = true })
				walkE(t.J, func(e *E) { keep[e] = true })
			}
			for _, q := range e.queries() {
				walkQueries(q, func(q *Q) { queries = append(queries, q) })
			}
		})
	}
	for _, q := range queries {
		for _, col := range q.Cols {
			if col.As == "" && col.E != nil {
				keep[col.E] = true
			}
		}
	}

	// Definitions with parameters of their own.
	defs := []*St{}
	define := func() *St {
		q := &Q{Cols: []*Col{cE(eAdd("+", eInt(1), eInt(2)), "z")}, From: fromCall("range", aE("end", eInt(g.n(0, 3))))}
		s := &St{Let: name("def"), Called: true, Op: "=", Q: q, Params: []*Param{{Name: name("par")}, {Name: name("par")}}}
		if g.chance(50) {
			s.Params[1].Def = aE(s.Params[1].Name, eInt(7))
		}
		defs = append(defs, s)
		return s
	}
	value := func() string {
		v := name("val")
		c.Env.add(v, g.val(g.pick("int", "str", "list", "obj"), 0))
		return v
	}
	bad := func(args ...*Arg) []*Arg {
		// It is not evaluated.
		return append(args, aE(name("bad"), eSym(name("unseen"))))
	}

	done := map[*E]bool{}
	for _, e := range exprs {
		if keep[e] || done[e] || !g.chance(p) {
			continue
		}
		x := *e
		// What is dropped is not part of the program any more.
		walkE(&x, func(e *E) { done[e] = true })
		switch g.n(0, 8) {
		case 0, 1:
			*e = *eSym(name("missing"))
		case 2:
			*e = *eSym(name("missing") + ".a.b")
		case 3:
			*e = *eCall(name("missing"), aE("x", eSym(name("unseen"))))
		case 4:
			*e = *eCall(value(), aE("x", eSym(name("unseen"))))
		case 5:
			switch g.n(0, 4) {
			case 0:
				*e = *eCall("len", bad(aE("list", eStr("abc")))...)
			case 1:
				*e = *eCall("split", bad(aE("string", eStr("a,b")), aE("sep", eStr(",")))...)
			case 2:
				*e = *eCall("get", bad(aE("item", eSym("d")), aE("member", eStr("x")))...)
			case 3:
				*e = *eCall("timestamp", bad(aE("epoch", eInt(5)))...)
			case 4:
				*e = *eCall("if", bad(aE("condition", eBool(true)), aE("then", eSym(name("unseen"))))...)
			}
		case 6:
			// A part which is not needed.
			e2 := *eCall("if", aE("condition", eBool(g.chance(50))), aE("then", &x), aE("else", eSym(name("missing"))))
			if g.chance(50) {
				e2.P[1].E, e2.P[2].E = e2.P[2].E, e2.P[1].E
			}
			*e = e2
		case 8:
			*e = *eCall("boom", aE("v", eStr(name("boom"))))
		case 7:
			// The same, with both wrong.
			*e = *eCall("if", aE("condition", eBool(g.chance(50))), aE("then", eSym(name("missing"))), aE("else", eSym(name("missing"))))
		}
	}
	for _, q := range queries {
		if !g.chance(p) {
			continue
		}
		switch g.n(0, 7) {
		case 7:
			// An unknown one for one which is missing.
			d := define()
			q.From = fromCall(d.Let, aE(d.Params[g.n(0, 1)].Name, eInt(1)), aE(name("extra"), eInt(1)))
			if g.chance(30) {
				q.From.P = append(q.From.P, aE(name("extra"), eInt(1)))
			}
			if g.chance(20) {
				q.From.P = q.From.P[1:]
			}
		case 0:
			q.From = from(name("missing"))
		case 1:
			q.From = fromCall(name("missing"), aE("x", eSym(name("unseen"))))
		case 2:
			q.From = fromCall(value(), aE("x", eSym(name("unseen"))))
		case 3:
			q.From = fromCall("range", aE("end", eInt(3)), aE(name("bad"), eInt(1)))
		case 4:
			d := define()
			q.From = fromCall(d.Let, aE(d.Params[0].Name, eInt(1)))
		case 5:
			d := define()
			q.From = fromCall(d.Let, aE(d.Params[1].Name, eInt(1)))
		case 6:
			d := define()
			q.From = fromCall(d.Let, aE(d.Params[0].Name, eInt(1)), aE(d.Params[1].Name, eInt(1)), aE(name("extra"), eInt(1)))
		}
	}
	if g.chance(10) {
		s := &St{Let: "ident", Op: g.pick("=", "<="), E: eInt(3)}
		defs = append(defs, s)
	}
	if g.chance(10) {
		defs = append(defs, &St{Let: name("mat"), Called: true, Op: "<=", E: eInt(3), Params: []*Param{{Name: name("unseen")}}})
	}
	c.Sts = append(defs, c.Sts...)
}

var message = regexp.MustCompile(strings.ReplaceAll(
	"Symbol NAME (?:not found|is )|Plugin NAME not found|(?:unrecognized|Missing|Unexpected) arg (.+?)(?: when calling|$)|Expression NAME takes|built in function NAME(?: |$)|(negative count -[0-9]+|exceeded memory limits)|PANIC: NAME$",
	"NAME", "-?(`[^`]*`|[^ `]+?)(?:\\.\\S+)?"))

var builtinName = regexp.MustCompile(`^(sum|range|foreach|flatten|len|if|get|split|timestamp|encode|format)$`)

// logged are the names which the lines of a log are about.
func logged(messages []string) (names map[string]int, other []string) {
	names = map[string]int{}
	for _, line := range messages {
		line = strings.TrimRight(line, "\n")
		if line == "" || strings.HasPrefix(line, "DEBUG:") {
			continue
		}
		// The stack of a panic.
		if strings.HasPrefix(line, "goroutine ") {
			continue
		}
		known := false
		if i := strings.Index(line, ": "); i >= 0 && builtinName.MatchString(line[:i]) {
			names[line[:i]]++
			known = true
		}
		if strings.HasPrefix(line, "Compile regexp") {
			names["regexp"]++
			continue
		}
		for _, after := range []string{"Current Scope", "Did you mean"} {
			if i := strings.Index(line, after); i >= 0 {
				line = line[:i]
			}
		}
		for _, f := range message.FindAllStringSubmatch(line, -1) {
			known = true
			names[strings.Trim(strings.Join(f[1:], ""), "`")]++
		}
		if !known {
			other = append(other, line)
		}
	}
	return names, other
}

type diagCase struct {
	progCase
	Wrong bool // with mistakes
}

func genMistakes(t *rapid.T) *diagCase {
	g := newG(t)
	c := g.lazyProgram()
	g.mistakes(c)
	return &diagCase{*c, true}
}

func checkMistakes(r *R, c *diagCase) {
	want, m, run, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	if m.Ahead {
		r.Class("undefined: a query which ends early")
		return
	}
	if run.Log.full() {
		r.Class("undefined: too long a log")
		return
	}
	names, other := logged(run.Log.msgs)
	expected := map[string]int{}
	total := 0
	for n, k := range m.Diag {
		if strings.HasPrefix(n, "regexp ") {
			n = "regexp"
		}
		expected[n] += k
		total += k
	}
	fail := func(format string, args ...interface{}) {
		r.Failf("%s\nprogram:\n%s\nenv: %s\nlog:\n%s", fmt.Sprintf(format, args...), program(c.Sts), show(c.Env.obj()), run.Log)
	}
	for n, k := range expected {
		if names[n] < k {
			fail("%s is logged %d times, expected %d", n, names[n], k)
		}
	}
	for n, k := range names {
		// A source which is not found is told of by two lines.
		if k > 2*expected[n] {
			fail("%s is logged %d times, expected %d", n, k, expected[n])
		}
	}
	if len(other) > 0 {
		fail("something else is logged: %s", other[0])
	}
	r.Count("mistakes evaluated", total)
	r.NonTrivialIf(countRows(want) > 0 && (total > 0 || !c.Wrong))
}

type logOp struct {
	Op    string
	Scope int
	N     int
	Text  string
}

// checkLevels: a message goes to the logger of its scope, with its level.
func checkLevels(r *R, ops []logOp) {
	type group struct{ log, trace int }
	type scoped struct {
		s types.Scope
		g *group
	}
	buffers := []*logBuf{{}, {}, {}, {}}
	want := make([][]string, len(buffers))
	scopes := []scoped{{vfilter.NewScope(), &group{-1, -1}}}
	expect := func(k int, text string) {
		if k >= 0 {
			want[k] = append(want[k], text+"\n")
		}
	}
	levels := map[string]string{"Log": "", "Error": "ERROR:", "Warn": "WARN:", "Debug": "DEBUG:", "Trace": "TRACE:"}
	said := 0
	for _, op := range ops {
		x := scopes[op.Scope%len(scopes)]
		switch op.Op {
		case "logger":
			x.s.SetLogger(log.New(buffers[op.N], "", 0))
			x.g.log = op.N
		case "tracer":
			x.s.SetTracer(log.New(buffers[op.N], "", 0))
			x.g.trace = op.N
		case "copy":
			scopes = append(scopes, scoped{x.s.Copy(), x.g})
		case "new":
			g := *x.g
			scopes = append(scopes, scoped{x.s.NewScope(), &g})
		case "clear":
			g := *x.g
			x.s.ClearContext()
			scopes[op.Scope%len(scopes)].g = &g
		case "panic":
			func() {
				defer types.RecoverVQL(x.s)
				panic(op.Text)
			}()
			expect(x.g.log, "ERROR:PANIC: "+op.Text)
		case "calm":
			func() { defer types.RecoverVQL(x.s) }()
		default:
			f := map[string]func(string, ...interface{}){
				"Log": x.s.Log, "Error": x.s.Error, "Warn": x.s.Warn, "Debug": x.s.Debug, "Trace": x.s.Trace}[op.Op]
			f("%v and %d", op.Text, op.N)
			k := x.g.log
			if op.Op == "Trace" {
				k = x.g.trace
			}
			expect(k, levels[op.Op]+fmt.Sprintf("%v and %d", op.Text, op.N))
			if k >= 0 {
				said++
			}
		}
	}
	for k, b := range buffers {
		got := []string{}
		for _, msg := range b.msgs {
			if !strings.HasPrefix(msg, "goroutine ") {
				got = append(got, msg)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want[k]) {
			r.Failf("logger %d got\n%q\nexpected\n%q\nafter %v", k, got, want[k], ops)
		}
	}
	r.NonTrivialIf(said > 2 && len(scopes) > 1)
}

func init() {
	register(&Prop{
		ID: "C23",
		Rule: "Random programs with mistakes at random places, each about a name of its own; the log must name each as often as it is evaluated, and no other. " +
			"Non-trivial: a mistake is evaluated.",
		Arms: []*Arm{
			arm("mistakes", 20000, 400000, genMistakes, checkMistakes),
			arm("clean", 10000, 200000, func(t *rapid.T) *diagCase { return &diagCase{*newG(t).lazyProgram(), false} }, checkMistakes),
			arm("levels", 10000, 200000, func(t *rapid.T) *[]logOp {
				g := newG(t)
				ops := []logOp{}
				for k := g.n(1, 25); k > 0; k-- {
					ops = append(ops, logOp{g.pick("logger", "tracer", "copy", "new", "clear", "panic", "calm", "Log", "Error", "Warn", "Debug", "Trace", "Log", "Trace"),
						g.n(0, 9), g.n(0, 3), g.pick("x", "100%", "a b", "%d")})
				}
				return &ops
			}, func(r *R, c *[]logOp) { checkLevels(r, *c) }),
		},
	})
}
