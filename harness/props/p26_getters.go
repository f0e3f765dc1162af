package props

import (
	"strconv"
	"strings"
	"sync/atomic"

	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter/protocols"
	"www.velocidex.com/golang/vfilter/types"
)

// Values with getters, which the host wraps by NewLazyStructWrapper.

type hostD struct {
	N     int64
	Other string
}

var getterCalls [4]int64

var getterNames = []string{"Name", "Val", "Next", "Nothing"}

func called(i int) { atomic.AddInt64(&getterCalls[i], 1) }

func (d hostD) Name() string {
	called(0)
	return "n" + strconv.FormatInt(d.N, 10)
}

func (d hostD) Val() (int64, error) {
	called(1)
	return d.N, nil
}

func (d hostD) Next() *hostD {
	called(2)
	if d.N <= 0 {
		return nil
	}
	return &hostD{N: d.N - 1}
}

func (d hostD) Nothing() interface{} {
	called(3)
	return nil
}

func (d hostD) Hidden() string { return "hidden" }

func (d hostD) Args(x int) int { return x }

// Wrapper is the registration of hostD.
type Wrapper struct {
	Attrs []string
	Ptr   bool
}

// hostWrap is only set by the checks which use it.
var hostWrap *Wrapper

// getterRefs counts the getters the model refers to.
var getterRefs map[string]int

func (w *Wrapper) build() types.Any {
	if w.Ptr {
		return protocols.NewLazyStructWrapper(&hostD{}, w.Attrs...)
	}
	return protocols.NewLazyStructWrapper(hostD{}, w.Attrs...)
}

func getterAssoc(h Host, b V) (V, bool) {
	s, ok := b.(string)
	if !ok || !has(hostWrap.Attrs, s) {
		return nil, false
	}
	if has(getterNames, s) {
		getterRefs[s]++
	}
	switch s {
	case "N", "Val":
		return h.N, true
	case "Other":
		return "", true
	case "Name":
		return "n" + strconv.FormatInt(h.N, 10), true
	case "Next":
		if h.N <= 0 {
			return nil, true
		}
		return Host{"D", h.N - 1}, true
	case "Nothing":
		return nil, true
	}
	return nil, false
}

type getterCase struct {
	Nil  bool // also select from rows which are nil
	Wrap *Wrapper
	Env  *Env
	Sts  []*St
}

func checkGetters(r *R, c *getterCase) {
	hostWrap, getterRefs = c.Wrap, map[string]int{}
	getterCalls = [4]int64{}
	defer func() { hostWrap = nil }()
	if c.Nil {
		// What is selected is not defined, but it must not fail.
		text := "SELECT *, Name AS n FROM dn SELECT * FROM foreach(row=dn, query={ SELECT *, Val AS v FROM nd })"
		if _, _, msg := runText(r.T, c.Env, text); msg != "" {
			r.Failf("%s\nprogram:\n%s\nenv: %s", msg, text, show(c.Env.obj()))
		}
		getterCalls = [4]int64{}
	}
	want, m, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	calls := 0
	for i, n := range getterNames {
		k := int(atomic.LoadInt64(&getterCalls[i]))
		calls += k
		if !m.Ahead && k > getterRefs[n] {
			r.Failf("%s is called %d times, it is only used %d times\nprogram:\n%s\nenv: %s", n, k, getterRefs[n], program(c.Sts), show(c.Env.obj()))
		}
	}
	n := countRows(want)
	r.Count("rows", n)
	r.Count("calls of getters", calls)
	r.NonTrivialIf(n > 0 && calls > 0)
}

func genGetters(t *rapid.T) *getterCase {
	g := newG(t)
	g.noRe = false
	c := &getterCase{Env: g.stdEnv(), Nil: g.chance(20), Wrap: &Wrapper{Ptr: g.chance(50)}}
	c.Wrap.Attrs = g.subset([]string{"N", "Other", "Name", "Val", "Next", "Nothing", "Missing"}, 80)
	val := func() *Val {
		return &Val{K: "host", Go: g.pick("D", "D", "D", "DV"), I: int64(g.n(0, 4))}
	}
	c.Env.add("d1", val())
	c.Env.add("d2", val())
	for _, name := range []string{"ds", "dn"} {
		l := &Val{K: "list"}
		for n := g.n(0, 4); n > 0; n-- {
			if name == "dn" && g.chance(30) {
				l.L = append(l.L, &Val{K: "host", Go: g.pick("D0", "B0")})
			} else {
				l.L = append(l.L, val())
			}
		}
		c.Env.add(name, l)
	}
	c.Env.add("dd", &Val{K: "obj", Keys: []string{"a", "b"}, L: []*Val{val(), val()}})
	c.Env.add("nd", &Val{K: "host", Go: g.pick("D0", "B0")})
	path := func(e *E, ms ...string) *E {
		r := &E{K: "mem", A: []*E{e}}
		for _, s := range ms {
			r.T = append(r.T, &Mem{K: "term", S: s})
		}
		return r
	}
	attr := map[string][]string{"int": {"N", "Val"}, "num": {"N", "Val"}, "str": {"Name", "Other"}, "any": {"Next", "Nothing", "Missing", "Hidden", "Args"}}
	g.extra = append(g.extra, func(ty string, depth int) *E {
		if ty == "list" {
			return path(eSym(g.pick("ds", "dn")), g.pick("N", "Val", "Name", "Hidden"))
		}
		names := attr[ty]
		if names == nil {
			names = attr["any"]
		}
		ms := []string{}
		for n := g.n(0, 2) - 1; n > 0; n-- {
			ms = append(ms, "Next")
		}
		ms = append(ms, g.pick(names...))
		switch g.n(0, 6) {
		case 0:
			return path(eSym("dd"), append([]string{g.pick("a", "b")}, ms...)...)
		case 1:
			e := path(eSym("ds"), ms...)
			e.T = append([]*Mem{{K: "index", I: eInt(g.n(-1, 3))}}, e.T...)
			return e
		case 2:
			return eCall("get", aE("item", eSym(g.pick("d1", "d2", "nd"))), aE("member", eStr(strings.Join(ms, "."))))
		case 3:
			return path(eSym("nd"), ms...)
		}
		return path(eSym(g.pick("d1", "d2")), ms...)
	}, func(ty string, depth int) *E {
		if ty == "str" {
			return eCall("format", aE("format", eStr("%v")), aE("args", path(eSym("d1"), g.pick("Name", "Val"))))
		}
		return nil
	})
	g.extra = append(g.extra, g.fnCall)
	g.extraP = 50
	cols := []ColT{{"N", "int"}, {"Val", "int"}, {"Name", "str"}, {"Next", "any"}}
	for n := g.n(1, 2); n > 0; n-- {
		var q *Q
		if g.chance(60) {
			q = &Q{From: from(g.pick("ds", "d1"))}
			if g.chance(25) {
				q.Cols = append(q.Cols, cStar())
			}
			g.with(cols, func() {
				for k := g.n(1, 3); k > 0; k-- {
					if g.chance(40) {
						q.Cols = append(q.Cols, cE(eSym(cols[g.n(0, len(cols)-1)].Name), ""))
						continue
					}
					q.Cols = append(q.Cols, cE(g.expr(g.pick("int", "str", "bool", "list", "any"), g.n(0, 2)), "c"+itoa(k)))
				}
				if g.chance(50) {
					q.Where = g.expr("bool", g.n(1, 2))
				}
				if g.chance(20) {
					q.Group = []*E{g.expr(g.pick("int", "str"), g.n(0, 1))}
				}
			})
			if g.chance(20) {
				// The results are used by another query.
				q = &Q{From: fromCall("foreach", aQ("row", q)), Cols: []*Col{cStar()}}
			}
		} else {
			q, _ = g.query(g.n(0, 1), qopt{nested: true})
		}
		c.Sts = append(c.Sts, &St{Q: q})
	}
	return c
}
