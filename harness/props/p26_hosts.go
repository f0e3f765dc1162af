package props

import (
	"context"
	"hash/fnv"
	"strconv"
	"strings"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter/types"
)

// Values of types which only the host knows, and implementations of the
// protocols for them.

// Host is the model of a value of a host type.
type Host struct {
	T string // A B C
	N int64
}

type hostA struct{ N int64 }

type hostB struct{ N int64 }

type hostC string

func (h Host) real() types.Any {
	switch h.T {
	case "D":
		return &hostD{N: h.N}
	case "DV":
		return hostD{N: h.N}
	case "D0":
		return (*hostD)(nil)
	case "B0":
		return (*hostB)(nil)
	case "A":
		return hostA{h.N}
	case "B":
		return &hostB{h.N}
	}
	return hostC("c" + strconv.FormatInt(h.N, 10))
}

func asHost(x interface{}) (Host, bool) {
	switch t := x.(type) {
	case hostD:
		return Host{"D", t.N}, true
	case *hostD:
		if t == nil {
			return Host{}, false
		}
		return Host{"D", t.N}, true
	case hostA:
		return Host{"A", t.N}, true
	case *hostB:
		if t == nil {
			return Host{}, false
		}
		return Host{"B", t.N}, true
	case hostC:
		n, err := strconv.ParseInt(strings.TrimPrefix(string(t), "c"), 10, 64)
		if err != nil {
			return Host{}, false
		}
		return Host{"C", n}, true
	}
	return Host{}, false
}

func vHost(t string, n int64) *Val { return &Val{K: "host", Go: t, I: n} }

// Impl is an implementation of one protocol for operands of some kinds.
type Impl struct {
	Op      string   // bool eq lt gt add sub mul div in regex assoc iter
	L       []string // kinds of the operands
	R       []string `json:",omitempty"`
	Members []string `json:",omitempty"`
}

// hostTab is what is registered, in this order. It is only set by the checks
// which use it.
var hostTab []*Impl

// kindOf is the kind of an operand in the patterns of implementations.
func kindOf(v V) string {
	switch t := v.(type) {
	case nil:
		return "null"
	case bool, int64, float64:
		return "num"
	case string:
		return "str"
	case []V:
		return "list"
	case *Obj:
		return "obj"
	case Host:
		return t.T
	}
	return "other"
}

func isHost(v V) bool { _, ok := v.(Host); return ok }

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (i *Impl) unary() bool { return i.Op == "bool" || i.Op == "iter" || i.Op == "assoc" }

func (i *Impl) applies(a, b V) bool {
	return has(i.L, kindOf(a)) && (i.unary() || has(i.R, kindOf(b)))
}

// find returns the implementation for an operation: the last which was added
// of those which apply, and its number.
func findImpl(op string, a, b V) (*Impl, int) {
	for n := len(hostTab) - 1; n >= 0; n-- {
		if i := hostTab[n]; i.Op == op && i.applies(a, b) {
			return i, n
		}
	}
	return nil, 0
}

// outcome is what implementation n gives for its operands.
func outcome(n int, op string, a, b V) uint32 {
	h := fnv.New32a()
	_, _ = h.Write([]byte(strconv.Itoa(n) + op + show(a) + "," + show(b)))
	return h.Sum32() >> 3
}

func outcomeV(n int, op string, a, b V) V {
	x := outcome(n, op, a, b)
	switch x % 5 {
	case 0:
		return int64(x / 5 % 10)
	case 1:
		return "r" + strconv.Itoa(int(x/5%10))
	}
	return Host{string(rune('A' + x%3)), int64(x / 5 % 10)}
}

// hostBool and hostOp evaluate an operation by an implementation.
func hostBool(op string, a, b V) (res, ok bool) {
	i, n := findImpl(op, a, b)
	if i == nil {
		return false, false
	}
	return outcome(n, op, a, b)%2 == 1, true
}

func hostOp(op string, a, b V) (V, bool) {
	i, n := findImpl(op, a, b)
	if i == nil {
		return nil, false
	}
	return outcomeV(n, op, a, b), true
}

func (i *Impl) member(n int, a, b V) (V, bool) {
	s, ok := b.(string)
	if ok && !has(i.Members, s) || !ok && !isNum(b) {
		return nil, false
	}
	return outcomeV(n, "assoc", a, b), true
}

func (i *Impl) rows(n int, a V) []V {
	r := []V{}
	for k := uint32(0); k < outcome(n, "iter", a, nil)%4; k++ {
		r = append(r, newObj().Set("a", int64(k)).Set("b", a).Set("k", int64(n)))
	}
	return r
}

// hostAssoc is the member b of a host value.
func hostAssoc(a, b V) (V, bool) {
	if i, n := findImpl("assoc", a, b); i != nil {
		return i.member(n, a, b)
	}
	h := a.(Host)
	if h.T == "D" {
		return getterAssoc(h, b)
	}
	if h.T != "C" {
		if b == "N" {
			return h.N, true
		}
		return nil, false
	}
	if !isNum(b) {
		return nil, false
	}
	s := string(h.real().(hostC))
	x, _ := toInt(b)
	if x < 0 {
		x += int64(len(s))
	}
	if x < 0 || x >= int64(len(s)) {
		return nil, false
	}
	return int64(s[x]), true
}

func hostMembers(a V) []string {
	if i, _ := findImpl("assoc", a, ""); i != nil {
		return i.Members
	}
	switch a.(Host).T {
	case "D":
		return hostWrap.Attrs
	case "A", "B":
		return []string{"N"}
	}
	return nil
}

// realize is the value handed back by an implementation.
func realize(v V) types.Any {
	switch t := v.(type) {
	case Host:
		return t.real()
	case nil:
		return types.Null{}
	}
	return v
}

func hostRow(o *Obj) *ordereddict.Dict {
	d := ordereddict.NewDict()
	for _, k := range o.Keys {
		d.Set(k, realize(o.Vals[k]))
	}
	return d
}

// The implementations in the code under test. One Go type for each protocol.

type implBase struct {
	*Impl
	n int
}

// operand is the model of an operand. Operands must have been evaluated.
func operand(x types.Any) V {
	switch x.(type) {
	case types.LazyExpr, types.StoredExpression:
		panic("an operand which is not evaluated")
	case types.StoredQuery, types.LazyRow, types.Scope:
		return struct{}{}
	}
	return canon(x)
}

type (
	implUnary  struct{ implBase }
	implBinary struct{ implBase }
	implBool   struct{ implUnary }
	implIter   struct{ implUnary }
	implAssoc  struct{ implBinary }
	implEq     struct{ implBinary }
	implLt     struct{ implBinary }
	implGt     struct{ implBinary }
	implAdd    struct{ implBinary }
	implSub    struct{ implBinary }
	implMul    struct{ implBinary }
	implDiv    struct{ implBinary }
	implIn     struct{ implBinary }
	implRegex  struct{ implBinary }
)

func (self implUnary) Applicable(a types.Any) bool { return self.applies(operand(a), nil) }
func (self implBinary) Applicable(a types.Any, b types.Any) bool {
	if self.unary() {
		return self.applies(operand(a), nil)
	}
	return self.applies(operand(a), operand(b))
}

func (self implBase) bool(a, b types.Any) bool {
	return outcome(self.n, self.Op, operand(a), operand(b))%2 == 1
}
func (self implBase) any(a, b types.Any) types.Any {
	return realize(outcomeV(self.n, self.Op, operand(a), operand(b)))
}

func (self implBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
	return self.bool(a, nil)
}
func (self implEq) Eq(scope types.Scope, a types.Any, b types.Any) bool { return self.bool(a, b) }
func (self implLt) Lt(scope types.Scope, a types.Any, b types.Any) bool { return self.bool(a, b) }
func (self implGt) Gt(scope types.Scope, a types.Any, b types.Any) bool { return self.bool(a, b) }
func (self implIn) Membership(scope types.Scope, a types.Any, b types.Any) bool {
	return self.bool(a, b)
}
func (self implRegex) Match(scope types.Scope, pattern types.Any, target types.Any) bool {
	return self.bool(pattern, target)
}
func (self implAdd) Add(scope types.Scope, a types.Any, b types.Any) types.Any {
	return self.any(a, b)
}
func (self implSub) Sub(scope types.Scope, a types.Any, b types.Any) types.Any {
	return self.any(a, b)
}
func (self implMul) Mul(scope types.Scope, a types.Any, b types.Any) types.Any {
	return self.any(a, b)
}
func (self implDiv) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
	return self.any(a, b)
}
func (self implAssoc) Associative(scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
	v, ok := self.member(self.n, operand(a), operand(b))
	if !ok {
		return nil, false
	}
	return realize(v), true
}
func (self implAssoc) GetMembers(scope types.Scope, a types.Any) []string { return self.Members }
func (self implIter) Iterate(ctx context.Context, scope types.Scope, a types.Any) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for _, row := range self.rows(self.n, operand(a)) {
			d := hostRow(row.(*Obj))
			select {
			case <-ctx.Done():
				return
			case out <- d:
			}
		}
	}()
	return out
}

func (i *Impl) build(n int) types.Any {
	b := implBase{i, n}
	u, x := implUnary{b}, implBinary{b}
	switch i.Op {
	case "bool":
		return implBool{u}
	case "iter":
		return implIter{u}
	case "assoc":
		return implAssoc{x}
	case "eq":
		return implEq{x}
	case "lt":
		return implLt{x}
	case "gt":
		return implGt{x}
	case "add":
		return implAdd{x}
	case "sub":
		return implSub{x}
	case "mul":
		return implMul{x}
	case "div":
		return implDiv{x}
	case "in":
		return implIn{x}
	case "regex":
		return implRegex{x}
	}
	panic("harness: protocol " + i.Op)
}

var hostKinds = []string{"A", "B", "C"}
var hostOps = []string{"bool", "eq", "lt", "gt", "add", "sub", "mul", "div", "in", "regex", "assoc", "iter"}
var anyKinds = []string{"A", "B", "C", "null", "num", "str", "list", "obj"}

func (g *G) subset(l []string, p int) []string {
	r := []string{}
	for _, x := range l {
		if g.chance(p) {
			r = append(r, x)
		}
	}
	return r
}

// impl is an implementation which applies only where an operand is of a host
// type.
func (g *G) impl(ops []string) *Impl {
	i := &Impl{Op: g.pick(ops...)}
	i.L = g.subset(hostKinds, 60)
	switch {
	case i.Op == "assoc":
		i.Members = g.subset([]string{"a", "b", "c", "k", "N"}, 50)
	case i.unary():
	case g.chance(50):
		i.R = g.subset(anyKinds, 50)
	default:
		i.R = i.L
		i.L = g.subset(anyKinds, 50)
	}
	return i
}

// hostOp is an expression which uses a protocol for a host value.
func (g *G) hostOp(op string, depth int) *E {
	host := func() *E {
		switch g.n(0, 5) {
		case 0:
			return &E{K: "mem", A: []*E{eSym("hd")}, T: []*Mem{{K: "term", S: g.pick("a", "b")}}}
		case 1:
			return &E{K: "mem", A: []*E{eSym("hl")}, T: []*Mem{{K: "index", I: eInt(g.n(0, 2))}}}
		}
		return eSym(g.pick("h1", "h2", "h3"))
	}
	a, b := host(), host()
	if g.chance(60) {
		b = g.expr(g.pick("num", "str", "list", "obj", "any"), depth)
		if g.chance(40) {
			a, b = b, a
		}
	}
	par := func(e *E) *E {
		switch e.K {
		case "sym", "call", "mem", "num", "str", "bool", "null":
		default:
			e.St |= 8
		}
		return e
	}
	a, b = par(a), par(b)
	switch op {
	case "eq":
		return eCmp(g.pick("=", "!=", "<=", ">="), a, b)
	case "lt":
		return eCmp(g.pick("<", "<="), a, b)
	case "gt":
		return eCmp(g.pick(">", ">="), a, b)
	case "in":
		return eCmp("IN", a, b)
	case "regex":
		return eCmp("=~", a, b)
	case "add", "sub":
		return &E{K: "add", A: []*E{a, b}, Ops: []string{map[string]string{"add": "+", "sub": "-"}[op]}}
	case "mul":
		return eMul("*", a, b)
	case "div":
		return eMul("/", a, b)
	case "assoc":
		m := &Mem{K: "term", S: g.pick("a", "b", "c", "k", "N")}
		if g.chance(40) {
			m = &Mem{K: "index", I: g.expr(g.pick("int", "any"), 0)}
		}
		return &E{K: "mem", A: []*E{host()}, T: []*Mem{m}}
	case "bool":
		return eCall("if", aE("condition", host()), aE("then", a), aE("else", b))
	case "iter":
		q, _ := g.query(0, qopt{})
		q.From = fromCall("foreach", aE("row", host()))
		q.Cols = []*Col{cStar()}
		q.Where = nil
		return eCall("ident", aQ("v", q))
	}
	return nil
}

// hostEnv adds values of host types to an environment.
func (g *G) hostEnv(e *Env) {
	host := func() *Val { return vHost(g.pick(hostKinds...), int64(g.n(0, 9))) }
	put := func(name string, v *Val, tys ...string) {
		e.add(name, v)
		for _, ty := range tys {
			g.declare(ty, name)
			g.declare(ty, name)
		}
	}
	for _, n := range []string{"h1", "h2", "h3"} {
		put(n, host(), "num", "str", "any", "obj", "list", "bool")
	}
	l := &Val{K: "list"}
	for n := g.n(1, 4); n > 0; n-- {
		if g.chance(80) {
			l.L = append(l.L, host())
		} else {
			l.L = append(l.L, g.val("any", 0))
		}
	}
	put("hl", l, "list", "list")
	put("hd", &Val{K: "obj", Keys: []string{"a", "b"}, L: []*Val{host(), host()}}, "obj", "obj")
	rows := &Val{K: "list"}
	for n := g.n(0, 4); n > 0; n-- {
		if g.chance(60) {
			rows.L = append(rows.L, host())
		} else {
			rows.L = append(rows.L, &Val{K: "obj", Keys: []string{"a", "b", "c", "k"}, L: []*Val{host(), host(), g.val("num", 0), vInt(int64(g.n(0, 2)))}})
		}
	}
	for i, n := range e.Names {
		if n == "rows" {
			e.Vals[i] = rows
		}
	}
}

type hostCase struct {
	Impls []*Impl
	Env   *Env
	Sts   []*St
}

func checkHosts(r *R, c *hostCase) {
	hostTab = c.Impls
	defer func() { hostTab = nil }()
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := countRows(want)
	r.Count("rows", n)
	used := 0
	for _, s := range c.Sts {
		walkSt(s, func(e *E) {
			if e.K == "sym" && strings.HasPrefix(e.S, "h") {
				used++
			}
		})
	}
	r.Count("uses of host values", used)
	r.NonTrivialIf(n > 0 && used > 0 && len(c.Impls) > 2)
}

func genHosts(t *rapid.T) (*G, *hostCase) {
	g := newG(t)
	c := &hostCase{Env: g.stdEnv()}
	g.hostEnv(c.Env)
	// Several implementations of a few protocols, so that many of them apply
	// to the same operands.
	ops := []string{}
	for n := g.n(1, 4); n > 0; n-- {
		ops = append(ops, g.pick(hostOps...))
	}
	for n := g.n(3, 12); n > 0; n-- {
		c.Impls = append(c.Impls, g.impl(ops))
	}
	g.extra = append(g.extra, func(ty string, depth int) *E { return g.hostOp(g.pick(ops...), depth) })
	g.extraP = 40
	return g, c
}

func init() {
	register(&Prop{
		ID: "C26",
		Rule: "Random implementations of the protocols for values of three host types (a struct, a pointer and a named string), alone and with values of other kinds, added in any order, " +
			"and random expressions and programs over such values, or a replaced sorter, grouper or materializer under random programs, or wrapped structs with getters; " +
			"non-trivial: a host value is used, at least three implementations, and a row is produced (replaced parts: one was used; getters: one was called).",
		Arms: []*Arm{
			arm("expr", 30000, 600000, func(t *rapid.T) *hostCase {
				g, c := genHosts(t)
				e := &exprCase{Env: c.Env, Rows: g.chance(40)}
				if e.Rows {
					g.declare("num", "a")
					g.declare("str", "b")
				}
				for n := g.n(1, 4); n > 0; n-- {
					e.Exprs = append(e.Exprs, g.expr("any", g.n(1, 3)))
				}
				c.Sts = exprPrograms(e)
				return c
			}, checkHosts),
			arm("query", 20000, 400000, func(t *rapid.T) *hostCase {
				g, c := genHosts(t)
				q, _ := g.query(g.n(0, 2), qopt{limit: true, nested: g.chance(50)})
				c.Sts = []*St{{Q: q}}
				return c
			}, checkHosts),
			arm("getters", 30000, 600000, genGetters, checkGetters),
			arm("parts", 30000, 600000, genParts, checkParts),
		},
	})
}
