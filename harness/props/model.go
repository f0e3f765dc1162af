package props

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// The reference interpreter: a direct, sequential evaluator of the harness's
// own syntax tree. It never calls the code under test.

// SQ is a stored query value (LET without parameters, subselect argument, or
// a call site when Scope is set).
type SQ struct {
	Q        *Q
	Params   []*Param
	Scope    *Scope // evaluate here rather than in the caller's scope
	Defaults []*Arg
	Literal  bool // a query which is an argument
}

// SE is a stored expression.
type SE struct {
	E        *E
	Defaults []*Arg
}

// Mat is a materialized query.
type Mat struct{ Rows []V }

// Ag is an aggregation context.
type Ag struct{ data map[interface{}]V }

func newAg() *Ag { return &Ag{data: map[interface{}]V{}} }

type lookup interface {
	get(name string) (V, bool)
}

type objFrame struct{ o *Obj }

func (f objFrame) get(n string) (V, bool) { return f.o.Get(n) }

// valFrame is a row of any type used as a frame.
type valFrame struct {
	m *M
	v V
}

func (f valFrame) get(n string) (V, bool) {
	if f.v == nil {
		return nil, true
	}
	if o, ok := f.v.(*Obj); ok {
		return o.Get(n)
	}
	if isHost(f.v) {
		return hostAssoc(f.v, n)
	}
	if l, ok := f.v.([]V); ok {
		return f.m.assocStr(l, n)
	}
	if _, ok := asQuery(f.v); ok {
		giveUp("query as a row")
	}
	return nil, false
}

// scopeRow is the row of scope(): it has no columns of its own.
type scopeRow struct{}

// Scope is a chain of frames.
type Scope struct {
	frames []lookup
	ag     *Ag
	parent *Scope
	depth  int
}

func (s *Scope) child() *Scope {
	if s.depth > 120 {
		giveUp("deep recursion")
	}
	return &Scope{frames: append([]lookup{}, s.frames...), parent: s, depth: s.depth + 1}
}

func (s *Scope) push(f lookup) { s.frames = append(s.frames, f) }

func (s *Scope) resolve(n string) (V, bool) {
	for i := len(s.frames) - 1; i >= 0; i-- {
		v, ok := s.frames[i].get(n)
		if ok {
			return v, true
		}
	}
	return nil, false
}

func (s *Scope) agctx() *Ag {
	for x := s; x != nil; x = x.parent {
		if x.ag != nil {
			return x.ag
		}
		if x.parent == nil {
			x.ag = newAg()
			return x.ag
		}
	}
	return nil
}

// M is the interpreter.
type M struct {
	Track map[string]int // how often track(id=) was called
	Trace []string       // the order of the calls
	Steps int
	Ahead bool // a query was ended early: the engine may have evaluated a row more

	// What an explainer is told: rows of plugins, rows given and rejected.
	explain      bool
	In, Out, Rej int

	// Rows of FROM, calls of plugins, calls of functions and definitions.
	Scanned, Plugins, Calls int

	// What is logged: how often by the name it is about.
	Diag map[string]int

	// When set, ORDER BY is evaluated by a stable sort. Otherwise the order
	// of the rows is left as produced.
	NoOrder bool
}

func newModel() *M {
	return &M{Track: map[string]int{}, Diag: map[string]int{}}
}

// unsupported aborts the evaluation of a case the model does not define.
type unsupported struct{ why string }

func giveUp(format string, a ...interface{}) { panic(unsupported{fmt.Sprintf(format, a...)}) }

// margs are lazily evaluated arguments.
type margs struct {
	names []string
	thunk map[string]func() V
	cache map[string]V
}

func (a *margs) has(n string) bool { _, ok := a.thunk[n]; return ok }

func (a *margs) get(n string) V {
	if v, ok := a.cache[n]; ok {
		return v
	}
	f, ok := a.thunk[n]
	if !ok {
		return nil
	}
	v := f()
	a.cache[n] = v
	return v
}

func (m *M) args(ps []*Arg, sc *Scope, lazy bool) *margs {
	r := &margs{thunk: map[string]func() V{}, cache: map[string]V{}}
	for _, p := range ps {
		p := p
		if r.has(p.Name) {
			giveUp("duplicate argument")
		}
		r.names = append(r.names, p.Name)
		r.thunk[p.Name] = func() V { return m.argValue(p, sc) }
		if !lazy || p.K == "arr" {
			r.get(p.Name)
		}
	}
	return r
}

func (m *M) argValue(p *Arg, sc *Scope) V {
	switch p.K {
	case "q":
		return &SQ{Q: p.Q, Literal: true}
	case "arr":
		if len(p.A) == 1 {
			return m.eval(p.A[0], sc)
		}
		l := []V{}
		for _, x := range p.A {
			l = append(l, m.eval(x, sc))
		}
		return l
	}
	return m.eval(p.E, sc)
}

// ---- operators ----

func toInt(v V) (int64, bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, true
		}
		return 0, true
	case int64:
		return t, true
	case float64:
		return int64(t), true
	}
	return 0, false
}

func toFloat(v V) (float64, bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, true
		}
		return 0, true
	case int64:
		return float64(t), true
	case float64:
		return t, true
	}
	return 0, false
}

func isNum(v V) bool {
	switch v.(type) {
	case bool, int64, float64:
		return true
	}
	return false
}

func isList(v V) bool { _, ok := v.([]V); return ok }

func isFloat(v V) bool { _, ok := v.(float64); return ok }

func (m *M) truth(v V, sc *Scope) bool {
	switch t := v.(type) {
	case nil:
		return false
	case bool:
		return t
	case int64:
		return t > 0
	case float64:
		return t > 0
	case string:
		return len(t) > 0
	case []V:
		return len(t) > 0
	case *Obj:
		return len(t.Keys) > 0
	case *SQ:
		found := false
		m.Ahead = true
		m.runSQ(t, sc.child(), func(V) bool { found = true; return false })
		return found
	case *Mat:
		return len(t.Rows) > 0
	case Host:
		res, _ := hostBool("bool", v, nil)
		return res
	}
	return false
}

func (m *M) listOf(v V, sc *Scope) []V {
	switch t := v.(type) {
	case []V:
		return t
	case *SQ:
		return m.collect(t, sc)
	case *Mat:
		return t.Rows
	}
	return []V{v}
}

func (m *M) add(a, b V, sc *Scope) V {
	switch t := a.(type) {
	case nil:
		return nil
	case string:
		if s, ok := b.(string); ok {
			return t + s
		}
	case int64:
		switch u := b.(type) {
		case int64:
			return t + u
		case float64:
			return float64(t) + u
		}
	case float64:
		if f, ok := toFloat(b); ok {
			return t + f
		}
	}
	if v, ok := hostOp("add", a, b); ok {
		return v
	}
	_, asq := asQuery(a)
	_, bsq := asQuery(b)
	if isList(a) || isList(b) || (asq && bsq) {
		return append(append([]V{}, m.listOf(a, sc)...), m.listOf(b, sc)...)
	}
	return nil
}

func asQuery(v V) (V, bool) {
	switch v.(type) {
	case *SQ, *Mat:
		return v, true
	}
	return nil, false
}

func sub(a, b V) V {
	if a != nil && b != nil {
		if v, ok := hostOp("sub", a, b); ok {
			return v
		}
	}
	if !isNum(a) || !isNum(b) {
		return nil
	}
	if isFloat(a) || isFloat(b) {
		x, _ := toFloat(a)
		y, _ := toFloat(b)
		return x - y
	}
	x, _ := toInt(a)
	y, _ := toInt(b)
	return x - y
}

func mul(a, b V) V {
	if s, ok := a.(string); ok && isNum(b) {
		n, _ := toInt(b)
		if n < 0 {
			return nil
		}
		if len(s) > 0 && n > 100000000/int64(len(s)) {
			return nil
		}
		if len(s) == 0 {
			return ""
		}
		return strings.Repeat(s, int(n))
	}
	if a != nil && b != nil {
		if v, ok := hostOp("mul", a, b); ok {
			return v
		}
	}
	if !isNum(a) || !isNum(b) {
		return nil
	}
	if isFloat(a) || isFloat(b) {
		x, _ := toFloat(a)
		y, _ := toFloat(b)
		return x * y
	}
	x, _ := toInt(a)
	y, _ := toInt(b)
	return x * y
}

func div(a, b V) V {
	if a != nil && b != nil {
		if v, ok := hostOp("div", a, b); ok {
			return v
		}
	}
	if !isNum(a) || !isNum(b) {
		return nil
	}
	x, _ := toFloat(a)
	y, _ := toFloat(b)
	if y == 0 {
		return nil
	}
	return x / y
}

func eq(a, b V) bool {
	if a == nil || b == nil && !isHost(a) {
		return a == nil && b == nil
	}
	if res, ok := hostBool("eq", a, b); ok {
		return res
	}
	if isNum(a) && isNum(b) {
		if isFloat(a) || isFloat(b) {
			x, _ := toFloat(a)
			y, _ := toFloat(b)
			return x == y
		}
		x, _ := toInt(a)
		y, _ := toInt(b)
		return x == y
	}
	switch t := a.(type) {
	case string:
		s, ok := b.(string)
		return ok && s == t
	case []V:
		l, ok := b.([]V)
		if !ok || len(l) != len(t) {
			return false
		}
		for i := range t {
			if !eq(t[i], l[i]) {
				return false
			}
		}
		return true
	case *Obj:
		o, ok := b.(*Obj)
		if !ok || len(o.Keys) != len(t.Keys) {
			return false
		}
		for _, k := range t.Keys {
			v, pres := o.Get(k)
			if !pres || !eq(t.Vals[k], v) {
				return false
			}
		}
		return true
	}
	return false
}

func gt(a, b V) bool {
	if isHost(a) || isHost(b) {
		res, _ := hostBool("gt", a, b)
		return res && a != nil && b != nil
	}
	return lt(b, a)
}

func lt(a, b V) bool {
	if isHost(a) || isHost(b) {
		res, _ := hostBool("lt", a, b)
		return res && a != nil && b != nil
	}
	if isNum(a) && isNum(b) {
		if isFloat(a) || isFloat(b) {
			x, _ := toFloat(a)
			y, _ := toFloat(b)
			return x < y
		}
		x, _ := toInt(a)
		y, _ := toInt(b)
		return x < y
	}
	s, ok := a.(string)
	if !ok {
		return false
	}
	t, ok := b.(string)
	return ok && s < t
}

func member(a, b V) bool {
	if b != nil {
		if res, ok := hostBool("in", a, b); ok {
			return res
		}
	}
	switch t := b.(type) {
	case string:
		s, ok := a.(string)
		return ok && strings.Contains(t, s)
	case *Obj:
		s, ok := a.(string)
		if !ok {
			return false
		}
		_, pres := t.Get(s)
		return pres
	case []V:
		for _, x := range t {
			if eq(a, x) {
				return true
			}
		}
	}
	return false
}

func match(pattern, target V) bool {
	p, ok := pattern.(string)
	if !ok || isHost(target) && p != "." && p != ".*" && p != "" {
		res, _ := hostBool("regex", pattern, target)
		return res
	}
	if p == "." || p == ".*" || p == "" {
		return true
	}
	switch t := target.(type) {
	case string:
		re, err := regexp.Compile("(?i)" + p)
		return err == nil && re.MatchString(t)
	case []V:
		for _, x := range t {
			if match(pattern, x) {
				return true
			}
		}
	}
	return false
}

// wantsRegex: does matching the value need the regular expression?
func wantsRegex(p string, target V) bool {
	if p == "." || p == ".*" || p == "" {
		return false
	}
	switch t := target.(type) {
	case string:
		return true
	case []V:
		for _, x := range t {
			if wantsRegex(p, x) {
				return true
			}
		}
	}
	return false
}

func compare(op string, a, b V) V {
	switch strings.ToUpper(op) {
	case "=":
		return eq(a, b)
	case "!=", "<>":
		return !eq(a, b)
	case "<":
		return lt(a, b)
	case "<=":
		return lt(a, b) || eq(a, b)
	case ">":
		return gt(a, b)
	case ">=":
		return gt(a, b) || eq(a, b)
	case "IN":
		return member(a, b)
	case "=~":
		return match(b, a)
	}
	panic("harness: operator " + op)
}

func negate(v V) V {
	switch t := v.(type) {
	case bool:
		return !t
	case float64:
		return -t
	case int64:
		return -t
	}
	return nil
}

func parseNum(s string) V {
	i, err := strconv.ParseInt(s, 0, 64)
	if err == nil {
		return i
	}
	f, err := strconv.ParseFloat(s, 64)
	if err == nil {
		return f
	}
	return nil
}

// ---- member access ----

// assocStr is a.b. The second result is false when there is no such member.
func (m *M) assocStr(a V, name string) (V, bool) {
	switch t := a.(type) {
	case nil:
		return nil, true
	case *Obj:
		return t.Get(name)
	case []V:
		if t == nil {
			return nil, true
		}
		r := []V{}
		for _, x := range t {
			if _, ok := asQuery(x); ok {
				giveUp("query as a member of a list")
			}
			v, ok := m.assocStr(x, name)
			if ok {
				r = append(r, v)
			}
		}
		return r, true
	case *Mat:
		r := []V{}
		for _, x := range t.Rows {
			v, ok := m.assocStr(x, name)
			if !ok {
				v = nil
			}
			r = append(r, v)
		}
		return r, true
	case Host:
		return hostAssoc(a, name)
	}
	return nil, false
}

func (m *M) assoc(a, b V, sc *Scope) V {
	if l, ok := a.([]V); a == nil || (ok && l == nil) {
		return nil
	}
	if sq, ok := a.(*SQ); ok {
		m.Ahead = m.Ahead || isNum(b)
		a = &Mat{m.collect(sq, sc)}
	}
	if s, ok := b.(string); ok {
		v, _ := m.assocStr(a, s)
		return v
	}
	if isHost(a) {
		v, _ := hostAssoc(a, b)
		return v
	}
	if !isNum(b) {
		return nil
	}
	i, _ := toInt(b)
	n := int64(0)
	switch t := a.(type) {
	case string:
		n = int64(len(t))
	case []V:
		n = int64(len(t))
	case *Mat:
		n = int64(len(t.Rows))
	default:
		return nil
	}
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return nil
	}
	switch t := a.(type) {
	case string:
		return int64(t[i])
	case []V:
		return t[i]
	case *Mat:
		return t.Rows[i]
	}
	return nil
}

func slice(a V, from, to *int64) V {
	if h, ok := a.(Host); ok {
		if i, _ := findImpl("assoc", a, nil); i != nil || h.T != "C" {
			return nil
		}
		a = string(h.real().(hostC))
	}
	n := int64(0)
	switch t := a.(type) {
	case string:
		n = int64(len(t))
	case []V:
		if t == nil {
			return nil
		}
		n = int64(len(t))
	default:
		return nil
	}
	i, j := int64(0), n
	if from != nil {
		i = *from
	}
	if to != nil {
		j = *to
	}
	if i < 0 {
		i += n
	}
	if i < 0 {
		i = 0
	}
	if j < 0 {
		j += n
	}
	if j > n {
		j = n
	}
	if s, ok := a.(string); ok {
		if j <= i {
			return ""
		}
		return s[i:j]
	}
	if j <= i {
		return []V{}
	}
	return append([]V{}, a.([]V)[i:j]...)
}

// ---- expressions ----

func (m *M) step() {
	m.Steps++
	if m.Steps > 400000 {
		giveUp("too many steps")
	}
}

func (m *M) eval(e *E, sc *Scope) V {
	m.step()
	switch e.K {
	case "num":
		return parseNum(e.S)
	case "str":
		return e.S
	case "bool":
		return e.B
	case "null":
		return nil
	case "list":
		l := []V{}
		for _, x := range e.A {
			l = append(l, m.eval(x, sc))
		}
		return l
	case "and":
		v := m.eval(e.A[0], sc)
		if !m.truth(v, sc) {
			return false
		}
		for i, x := range e.A[1:] {
			v = m.eval(x, sc)
			if !m.truth(v, sc) {
				return false
			}
			if e.Ops[i] != "&&" {
				v = true
			}
		}
		return v
	case "or":
		v := m.eval(e.A[0], sc)
		if m.truth(v, sc) {
			return v
		}
		for i, x := range e.A[1:] {
			v = m.eval(x, sc)
			if m.truth(v, sc) {
				if e.Ops[i] == "||" {
					return v
				}
				return true
			}
		}
		return v
	case "not":
		return !m.truth(m.eval(e.A[0], sc), sc)
	case "cmp":
		a := m.eval(e.A[0], sc)
		b := m.eval(e.A[1], sc)
		if p, ok := b.(string); ok && e.S == "=~" && wantsRegex(p, a) {
			if _, err := regexp.Compile("(?i)" + p); err != nil {
				m.Diag["regexp "+p] = 1 // once in a scope
			}
		}
		return compare(e.S, a, b)
	case "add":
		v := m.eval(e.A[0], sc)
		for i, x := range e.A[1:] {
			w := m.eval(x, sc)
			if e.Ops[i] == "+" {
				v = m.add(v, w, sc)
			} else {
				v = sub(v, w)
			}
		}
		return v
	case "mul":
		v := m.eval(e.A[0], sc)
		for i, x := range e.A[1:] {
			w := m.eval(x, sc)
			if e.Ops[i] == "*" {
				if k, ok := toInt(w); ok && isNum(w) {
					if s, ok := v.(string); ok && k < 0 {
						m.Diag["negative count "+itoa(int(k))]++
					} else if ok && len(s) > 0 && k > 100000000/int64(len(s)) {
						m.Diag["exceeded memory limits"]++
					} else if ok && int64(len(s))*k > 1<<20 {
						giveUp("a long string")
					}
				}
				v = mul(v, w)
			} else {
				v = div(v, w)
			}
		}
		return v
	case "mem":
		steps := e.T
		head := e.A[0]
		// a.b is a single symbol.
		for head.K == "sym" && !head.Neg && head.St&8 == 0 && len(steps) > 0 && steps[0].K == "term" {
			head = eSym(head.S + "." + steps[0].S)
			steps = steps[1:]
		}
		v := m.eval(head, sc)
		for _, t := range steps {
			switch t.K {
			case "term":
				v = m.assoc(v, t.S, sc)
			case "index":
				v = m.assoc(v, m.eval(t.I, sc), sc)
			case "range":
				var i, j *int64
				if t.I != nil {
					x, ok := toInt(m.eval(t.I, sc))
					if !ok {
						return nil
					}
					i = &x
				}
				if t.J != nil {
					x, ok := toInt(m.eval(t.J, sc))
					if !ok {
						return nil
					}
					j = &x
				}
				if _, ok := asQuery(v); ok {
					giveUp("range of a query")
				}
				v = slice(v, i, j)
			}
		}
		return v
	case "sym":
		v := m.symbol(e, sc)
		if e.Neg {
			return negate(v)
		}
		return v
	case "call":
		v := m.call(e, sc)
		if e.Neg {
			return negate(v)
		}
		return v
	}
	panic("harness: eval " + e.K)
}

func (m *M) reduceSE(se *SE, sc *Scope, ps []*Arg, called bool) V {
	sub := sc.child()
	if called {
		sub.ag = newAg()
	}
	args := m.args(ps, sc, false)
	o := newObj()
	for _, n := range args.names {
		o.Set(n, args.get(n))
	}
	m.defaults(se.Defaults, o, sc)
	sub.push(objFrame{o})
	return m.eval(se.E, sub)
}

func (m *M) defaults(defs []*Arg, o *Obj, sc *Scope) {
	for _, d := range defs {
		if _, ok := o.Get(d.Name); !ok {
			o.Set(d.Name, m.argValue(d, sc))
		}
	}
}

func (m *M) symbol(e *E, sc *Scope) V {
	parts := strings.Split(e.S, ".")
	v, ok := sc.resolve(parts[0])
	if !ok {
		m.Diag[parts[0]]++
		return nil
	}
	for _, p := range parts[1:] {
		if se, ok := v.(*SE); ok {
			v = m.eval(se.E, sc.child())
		}
		if sq, ok := v.(*SQ); ok {
			v = &Mat{m.collect(sq, sc)}
		}
		v, ok = m.assocStr(v, p)
		if !ok {
			return nil
		}
	}
	switch t := v.(type) {
	case *SE:
		m.Calls++
		return m.reduceSE(t, sc, nil, false)
	}
	return v
}

func (m *M) call(e *E, sc *Scope) V {
	if f := m.function(e.S); f != nil {
		m.Calls++
		if n := badArg(e.P); n != "" {
			m.Diag[n]++
			m.Diag[e.S]++
			return nil
		}
		return f(m, sc, e, m.args(e.P, sc, true))
	}
	v, ok := sc.resolve(e.S)
	if !ok {
		m.Diag[e.S]++
		return nil
	}
	switch t := v.(type) {
	case *SE:
		m.Calls++
		return m.reduceSE(t, sc, e.P, true)
	case *SQ:
		if t.Literal {
			giveUp("calling an argument")
		}
		m.Calls++
		sub := sc.child()
		sub.ag = newAg()
		args := m.args(e.P, sc, false)
		o := newObj()
		for _, n := range args.names {
			o.Set(n, args.get(n))
		}
		m.defaults(t.Defaults, o, sc)
		sub.push(objFrame{o})
		return &SQ{Q: t.Q, Scope: sub}
	case *Mat:
		giveUp("calling a materialized query")
	}
	m.Diag[e.S]++
	return nil
}

// badArg is an argument of a name which no function or plugin knows.
func badArg(args []*Arg) string {
	for _, a := range args {
		if strings.HasPrefix(a.Name, "bad") {
			return a.Name
		}
	}
	return ""
}

// plain materializes queries.
func (m *M) plain(v V, sc *Scope) V {
	switch t := v.(type) {
	case *SQ:
		return m.collect(t, sc)
	case *Mat:
		return append([]V{}, t.Rows...)
	}
	return v
}

// unmat: a lazy argument which is a materialized query is a list.
func unmat(v V) V {
	if t, ok := v.(*Mat); ok {
		return append([]V{}, t.Rows...)
	}
	return v
}

// str is how a value is rendered for grouping.
func str(v V) string {
	switch t := v.(type) {
	case nil:
		return "Null"
	case string:
		return t
	case int64, float64, bool:
		return fmt.Sprintf("%v", t)
	case []V:
		parts := []string{}
		for _, x := range t {
			parts = append(parts, strconv.Quote(str(x)))
		}
		return "[" + strings.Join(parts, " ") + "]"
	}
	if isHost(v) {
		giveUp("text of a host value")
	}
	if hasFloat(v) {
		giveUp("text of a float in a dict")
	}
	return show(v)
}

func hasFloat(v V) bool {
	switch t := v.(type) {
	case float64:
		return true
	case []V:
		for _, x := range t {
			if hasFloat(x) {
				return true
			}
		}
	case *Obj:
		for _, x := range t.Vals {
			if hasFloat(x) {
				return true
			}
		}
	}
	return false
}

// groupKey identifies the bin of a row. Values with the same text share a
// bin.
func groupKey(vals []V) string {
	parts := []string{}
	for _, v := range vals {
		parts = append(parts, strconv.Quote(str(v)))
	}
	return strings.Join(parts, " ")
}

// extraFuncs are functions of the host which only some checks register.
var extraFuncs = map[string]mfunc{}

type mfunc func(m *M, sc *Scope, e *E, a *margs) V

func (m *M) function(name string) mfunc {
	switch name {
	case "track":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			id := a.get("id").(string)
			m.Track[id]++
			m.Trace = append(m.Trace, id)
			return unmat(a.get("v"))
		}
	case "boom":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			m.Diag[a.get("v").(string)]++
			return nil
		}
	case "ident":
		return func(m *M, sc *Scope, e *E, a *margs) V { return m.plain(a.get("v"), sc) }
	case "dict":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			o := newObj()
			for _, n := range a.names {
				v := a.get(n)
				o.Set(n, m.plain(v, sc))
			}
			return o
		}
	case "if":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			if m.truth(a.get("condition"), sc) {
				return unmat(a.get("then"))
			}
			return unmat(a.get("else"))
		}
	case "len":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			switch t := a.get("list").(type) {
			case string:
				return int64(len(t))
			case []V:
				return int64(len(t))
			case *Obj:
				return int64(len(t.Keys))
			case *SQ, *Mat:
				return int64(len(m.plain(t, sc).([]V)))
			case Host:
				if t.T == "C" {
					return int64(len(t.real().(hostC)))
				}
			}
			return int64(0)
		}
	case "get", "split", "format", "encode", "timestamp":
		return builtins[name]
	case "count":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			return m.agg(sc, e, func(old V, pres bool) V {
				n, _ := old.(int64)
				return n + 1
			})
		}
	case "sum":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			x, ok := toInt(a.get("item"))
			if !ok {
				m.Diag["sum"]++
				return nil
			}
			return m.agg(sc, e, func(old V, pres bool) V {
				n, _ := old.(int64)
				return n + x
			})
		}
	case "min":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			x := a.get("item")
			return m.agg(sc, e, func(old V, pres bool) V {
				if pres && !lt(x, old) {
					return old
				}
				return x
			})
		}
	case "max":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			x := a.get("item")
			return m.agg(sc, e, func(old V, pres bool) V {
				if pres && lt(x, old) {
					return old
				}
				return x
			})
		}
	case "enumerate":
		return func(m *M, sc *Scope, e *E, a *margs) V {
			x := m.plain(a.get("items"), sc)
			return m.agg(sc, e, func(old V, pres bool) V {
				l, _ := old.([]V)
				return append(append([]V{}, l...), x)
			})
		}
	}
	return extraFuncs[name]
}

func (m *M) agg(sc *Scope, e *E, f func(V, bool) V) V {
	c := sc.agctx()
	old, pres := c.data[e]
	v := f(old, pres)
	c.data[e] = v
	return v
}

// ---- queries ----

func (m *M) runSQ(sq *SQ, sc *Scope, yield func(V) bool) {
	if sq.Scope != nil {
		sc = sq.Scope
	}
	m.query(sq.Q, sc.child(), yield)
}

func (m *M) collect(sq *SQ, sc *Scope) []V {
	r := []V{}
	m.runSQ(sq, sc.child(), func(v V) bool { r = append(r, v); return true })
	return r
}

func (m *M) rows(q *Q, sc *Scope) []V {
	r := []V{}
	m.query(q, sc, func(v V) bool { r = append(r, v); return true })
	return r
}

// lazyRow evaluates its columns at most once.
type lazyRow struct {
	cols  []string
	thunk map[string]func() V
	cache map[string]V
}

func (l *lazyRow) set(n string, f func() V) {
	if _, ok := l.thunk[n]; ok {
		for i, c := range l.cols {
			if c == n {
				l.cols = append(append([]string{}, l.cols[:i]...), l.cols[i+1:]...)
				break
			}
		}
	}
	l.cols = append(l.cols, n)
	l.thunk[n] = f
}

func (l *lazyRow) get(n string) (V, bool) {
	if v, ok := l.cache[n]; ok {
		return v, true
	}
	f, ok := l.thunk[n]
	if !ok {
		return nil, false
	}
	v := f()
	l.cache[n] = v
	return v, true
}

func (l *lazyRow) obj() *Obj {
	o := newObj()
	for _, c := range l.cols {
		v, _ := l.get(c)
		o.Set(c, v)
	}
	return o
}

func (m *M) colName(c *Col) string {
	if c.As != "" {
		return c.As
	}
	if c.E != nil && c.E.K == "sym" && !c.E.Neg && c.E.St&8 == 0 {
		return c.E.S
	}
	giveUp("column without a name")
	return ""
}

func (m *M) transform(q *Q, sc *Scope, row V) *lazyRow {
	l := &lazyRow{thunk: map[string]func() V{}, cache: map[string]V{}}
	inner := sc.child()
	inner.push(valFrame{m, row})
	for i, c := range q.Cols {
		c := c
		if c.Star {
			o, ok := row.(*Obj)
			if isHost(row) {
				for _, k := range hostMembers(row) {
					k := k
					if _, ok := l.thunk[k]; ok && i > 0 || k == "Missing" {
						continue
					}
					l.set(k, func() V {
						v, _ := hostAssoc(row, k)
						return v
					})
				}
			}
			if !ok {
				if _, list := row.([]V); list {
					giveUp("* of a list")
				}
				continue
			}
			for _, k := range o.Keys {
				k := k
				if _, ok := l.thunk[k]; ok && i > 0 {
					continue
				}
				l.set(k, func() V { return o.Vals[k] })
			}
			continue
		}
		if c.Q != nil {
			l.set(m.colName(c), func() V {
				var r []V
				for _, x := range m.rows(c.Q, inner) {
					o, ok := x.(*Obj)
					if ok && len(o.Keys) == 1 {
						x = o.Vals[o.Keys[0]]
					}
					r = append(r, x)
				}
				if len(r) == 1 {
					return r[0]
				}
				return r
			})
			continue
		}
		l.set(m.colName(c), func() V {
			switch t := m.eval(c.E, inner).(type) {
			case *SQ:
				// The column is materialized but stays a query.
				return materialized(m.collect(t, inner))
			case *Mat:
				return append([]V{}, t.Rows...)
			default:
				return t
			}
		})
	}
	return l
}

// told counts what an explainer is told.
func (m *M) told(n *int) {
	if m.explain {
		*n++
	}
}

func (m *M) query(q *Q, sc *Scope, yield func(V) bool) {
	m.step()
	if q.Limit != nil {
		n := 0
		m.Ahead = true
		if *q.Limit <= 0 {
			return
		}
		c := *q
		c.Limit = nil
		m.query(&c, sc, func(v V) bool {
			n++
			return yield(v) && n < *q.Limit
		})
		return
	}
	if q.Order != "" && !m.NoOrder {
		c := *q
		c.Order = ""
		rows := []V{}
		m.query(&c, sc, func(v V) bool { rows = append(rows, v); return true })
		sorted := sortRows(rows, q.Order, q.Desc)
		if hostParts.Sort {
			reverse(sorted)
		}
		for _, r := range sorted {
			if !yield(r) {
				return
			}
		}
		return
	}
	if len(q.Group) > 0 {
		m.groupBy(q, sc, yield)
		return
	}
	m.from(q.From, sc, func(row V) bool {
		m.told(&m.In)
		m.Scanned++
		sub := sc.child()
		l := m.transform(q, sub, row)
		if q.Where != nil {
			ws := sub.child()
			ws.push(valFrame{m, row})
			ws.push(l)
			if !m.truth(m.eval(q.Where, ws), ws) {
				m.told(&m.Rej)
				return true
			}
		}
		o := l.obj()
		m.told(&m.Out)
		return yield(o)
	})
}

func (m *M) groupBy(q *Q, sc *Scope, yield func(V) bool) {
	type bin struct {
		ag  *Ag
		row *Obj
	}
	bins := map[string]*bin{}
	order := []string{}
	outer := sc.child()
	m.from(q.From, sc, func(row V) bool {
		m.told(&m.In)
		m.Scanned++
		sub := outer.child()
		l := m.transform(q, sub, row)
		sub.push(valFrame{m, row})
		sub.push(l)
		if q.Where != nil && !m.truth(m.eval(q.Where, sub), sub) {
			m.told(&m.Rej)
			return true
		}
		vals := []V{}
		for _, g := range q.Group {
			vals = append(vals, m.plain(m.eval(g, sub), sub))
		}
		key := groupKey(vals)
		b := bins[key]
		if b == nil {
			b = &bin{ag: newAg()}
			bins[key] = b
			order = append(order, key)
		}
		sub.ag = b.ag
		o := l.obj()
		if b.row == nil || !hostParts.Group {
			b.row = o
		}
		return true
	})
	if hostParts.Group {
		reverse(order)
	}
	for _, k := range order {
		m.told(&m.Out)
		if !yield(bins[k].row) {
			return
		}
	}
}

// keyLess is the order of ORDER BY: NULL sorts first.
func keyLess(a, b V) bool {
	if a == nil || b == nil {
		return a == nil && b != nil
	}
	return lt(a, b)
}

func rowKey(r V, col string) V {
	o, ok := r.(*Obj)
	if !ok {
		return nil
	}
	v, _ := o.Get(col)
	return v
}

func sortRows(rows []V, col string, desc bool) []V {
	r := append([]V{}, rows...)
	// Insertion sort: stable and obviously correct.
	for i := 1; i < len(r); i++ {
		for j := i; j > 0; j-- {
			a, b := rowKey(r[j-1], col), rowKey(r[j], col)
			swap := keyLess(b, a)
			if desc {
				swap = keyLess(a, b)
			}
			if !swap {
				break
			}
			r[j-1], r[j] = r[j], r[j-1]
		}
	}
	return r
}

// iterate is how plugins walk over a value.
func (m *M) iterate(v V, sc *Scope, yield func(V) bool) {
	switch t := v.(type) {
	case nil:
	case *SQ:
		m.runSQ(t, sc, yield)
	case *Mat:
		for _, r := range t.Rows {
			if !yield(r) {
				return
			}
		}
	case []V:
		for _, x := range t {
			if x == nil {
				continue
			}
			if _, ok := x.(*Obj); !ok {
				x = newObj().Set("_value", x)
			}
			if !yield(x) {
				return
			}
		}
	case *Obj:
		yield(t)
	default:
		if i, n := findImpl("iter", v, nil); i != nil && isHost(v) {
			for _, row := range i.rows(n, v) {
				if !yield(row) {
					return
				}
			}
			return
		}
		yield(newObj().Set("_value", v))
	}
}

func (m *M) emitSymbol(v V, sc *Scope, yield func(V) bool) {
	switch t := v.(type) {
	case *SE:
		m.emitSymbol(m.eval(t.E, sc), sc, yield)
	case *SQ:
		m.runSQ(t, sc, yield)
	case *Mat:
		for _, r := range t.Rows {
			if !yield(r) {
				return
			}
		}
	case []V:
		for _, r := range t {
			if !yield(r) {
				return
			}
		}
	default:
		yield(v)
	}
}

func (m *M) from(f *From, sc *Scope, yield func(V) bool) {
	m.step()
	if f.Call {
		if p := m.plugin(f.Name); p != nil {
			m.Plugins++
			args := m.args(f.P, sc, false)
			if n := badArg(f.P); n != "" {
				m.Diag[n]++
				m.Diag[f.Name]++
				return
			}
			p(m, sc, args, yield)
			return
		}
	}
	parts := strings.Split(f.Name, ".")
	v, ok := sc.resolve(parts[0])
	if !ok {
		m.Diag[parts[0]]++
		return
	}
	for _, p := range parts[1:] {
		if se, ok := v.(*SE); ok {
			v = m.eval(se.E, sc.child())
		}
		if sq, ok := v.(*SQ); ok {
			v = &Mat{m.collect(sq, sc)}
		}
		v, ok = m.assocStr(v, p)
		if !ok {
			return
		}
	}
	if !f.Call {
		m.emitSymbol(v, sc, yield)
		return
	}
	switch v.(type) {
	case *SE, *SQ:
	default:
		// Not called: the arguments are not needed.
		m.Diag[f.Name]++
		return
	}
	args := m.args(f.P, sc, false)
	o := newObj()
	for _, n := range args.names {
		o.Set(n, args.get(n))
	}
	switch t := v.(type) {
	case *SE:
		sub := sc.child()
		m.defaults(t.Defaults, o, sc)
		sub.push(objFrame{o})
		// The result is used in the scope of the caller.
		m.emitSymbol(m.eval(t.E, sub), sc, yield)
	case *SQ:
		if t.Literal {
			giveUp("calling an argument")
		}
		m.Plugins++
		sub := sc.child()
		sub.ag = newAg()
		m.defaults(t.Defaults, o, sc)
		m.params(t, o)
		for _, k := range o.Keys {
			if _, ok := o.Vals[k].(*Mat); ok {
				o.Vals[k] = o.Vals[k].(*Mat).Rows
			} else {
				o.Vals[k] = m.plain(o.Vals[k], sub)
			}
		}
		sub.push(objFrame{o})
		m.runSQ(t, sub, yield)
	}
}

// params reports the arguments which are not those of the definition.
func (m *M) params(t *SQ, o *Obj) {
	if len(t.Params) == 0 {
		return
	}
	for _, p := range t.Params {
		if _, ok := o.Get(p.Name); !ok {
			m.Diag[p.Name]++
		}
	}
	for _, k := range o.Keys {
		known := false
		for _, p := range t.Params {
			known = known || p.Name == k
		}
		if !known {
			m.Diag[k]++
		}
	}
}

type mplugin func(m *M, sc *Scope, a *margs, yield func(V) bool)

func (m *M) plugin(name string) mplugin {
	switch name {
	case "foreach":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			column, _ := a.get("column").(string)
			sq := a.get("query")
			m.iterate(a.get("row"), sc, func(row V) bool {
				if column != "" {
					row, _ = m.assocStr(row, column)
				}
				if !a.has("query") {
					return yield(row)
				}
				sub := sc.child()
				sub.push(valFrame{m, row})
				more := true
				m.evalAsQuery(sq, sub, func(v V) bool {
					more = yield(v)
					return more
				})
				return more
			})
		}
	case "chain":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			for _, n := range a.names {
				more := true
				m.evalAsQuery(a.get(n), sc.child(), func(v V) bool {
					more = yield(v)
					return more
				})
				if !more {
					return
				}
			}
		}
	case "if":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			if m.truth(a.get("condition"), sc) {
				m.evalAsQuery(a.get("then"), sc, yield)
			} else if a.has("else") {
				m.evalAsQuery(a.get("else"), sc, yield)
			}
		}
	case "range":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			start, end, step := int64(0), int64(0), int64(0)
			for n, p := range map[string]*int64{"start": &start, "end": &end, "step": &step} {
				if a.has(n) {
					v, ok := toInt(a.get(n))
					if !ok {
						m.Diag["range"]++
						return
					}
					*p = v
				} else if n == "end" {
					return
				}
			}
			if step == 0 {
				step = 1
			}
			i := start
			for (step > 0 && i < end) || (step < 0 && i > end) {
				m.step()
				if !yield(newObj().Set("_value", i)) {
					return
				}
				if (step > 0 && i > math.MaxInt64-step) || (step < 0 && i < math.MinInt64-step) {
					return
				}
				i += step
			}
		}
	case "flatten":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			m.evalAsQuery(a.get("query"), sc, func(row V) bool {
				o, ok := row.(*Obj)
				if !ok {
					giveUp("flatten of a value that is not a row")
				}
				for _, r := range m.flatten(o, len(o.Keys)-1, sc) {
					if !yield(r) {
						return false
					}
				}
				return true
			})
		}
	case "scope":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			yield(scopeRow{})
		}
	case "emit":
		return func(m *M, sc *Scope, a *margs, yield func(V) bool) {
			m.iterate(a.get("rows"), sc, yield)
		}
	}
	return nil
}

// flatten expands the list cells of a row: the first column varies fastest.
func (m *M) flatten(o *Obj, idx int, sc *Scope) []V {
	if idx < 0 {
		return []V{o}
	}
	k := o.Keys[idx]
	cells := []V{}
	m.iterate(o.Vals[k], sc, func(v V) bool {
		if d, ok := v.(*Obj); ok {
			if x, ok := d.Get("_value"); ok {
				v = x
			}
		}
		cells = append(cells, v)
		return true
	})
	if len(cells) == 0 {
		cells = []V{o.Vals[k]}
	}
	r := []V{}
	for _, c := range cells {
		n := newObj()
		for _, kk := range o.Keys {
			n.Set(kk, o.Vals[kk])
		}
		n.Vals[k] = c
		r = append(r, m.flatten(n, idx-1, sc)...)
	}
	return r
}

// evalAsQuery runs the argument of a plugin that expects a query.
func (m *M) evalAsQuery(v V, sc *Scope, yield func(V) bool) {
	switch t := v.(type) {
	case *SQ:
		m.runSQ(t, sc, yield)
	case *Mat:
		for _, r := range t.Rows {
			if !yield(r) {
				return
			}
		}
	case nil:
	case []V:
		for _, x := range t {
			if x == nil {
				continue
			}
			if l, ok := x.([]V); ok && len(l) > 0 {
				giveUp("list of lists as a query")
			}
			if !yield(asRow(x)) {
				return
			}
		}
	default:
		yield(asRow(v))
	}
}

// asRow is the row for a value: the value itself when it has members.
func asRow(v V) V {
	if o, ok := v.(*Obj); ok && len(o.Keys) > 0 {
		return o
	}
	return newObj().Set("_value", v)
}

// exec runs a statement. LETs return nil.
func (m *M) exec(s *St, root *Scope) []V {
	if s.Let == "" {
		m.explain = s.Q.Explain
		defer func() { m.explain = false }()
		return m.rows(s.Q, root.child())
	}
	var defs []*Arg
	for _, p := range s.Params {
		if p.Def != nil {
			d := *p.Def
			d.Name = p.Name
			defs = append(defs, &d)
		}
	}
	if m.function(s.Let) != nil || s.Op == "<=" && s.Called {
		m.Diag[s.Let]++
	}
	var v V
	switch {
	case s.Op == "=" && s.E != nil:
		v = &SE{E: s.E, Defaults: defs}
	case s.Op == "=":
		v = &SQ{Q: s.Q, Params: s.Params, Defaults: defs}
	case s.E != nil:
		v = m.eval(s.E, root)
		if sq, ok := v.(*SQ); ok {
			v = materialized(m.collect(sq, root))
		}
	default:
		v = materialized(m.rows(s.Q, root.child()))
	}
	root.push(objFrame{newObj().Set(s.Let, v)})
	return nil
}

// tryModel runs f and reports why the model does not define the case.
func tryModel(f func()) (why string) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(unsupported)
			if !ok {
				panic(e)
			}
			why = u.why
		}
	}()
	f()
	return ""
}
