package props

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/marshal"
	"www.velocidex.com/golang/vfilter/types"
)

// Marshalling: a scope which is written to JSON and restored gives the same
// rows for every query.

// jsonish is what is left of a value in JSON.
func jsonish(v V) V {
	switch t := v.(type) {
	case float64:
		switch {
		case math.IsNaN(t) || math.IsInf(t, 0):
			giveUp("not a number in JSON")
		case t == math.Trunc(t) && math.Abs(t) < 9e18:
			// The shortest text which is this float.
			i, _ := strconv.ParseInt(strconv.FormatFloat(t, 'f', -1, 64), 10, 64)
			return i
		case math.Abs(t) < 2e19:
			if t == math.Trunc(t) {
				giveUp("too large for an integer")
			}
		}
	case []V:
		if t == nil {
			return nil
		}
		r := []V{}
		for _, x := range t {
			r = append(r, jsonish(x))
		}
		return r
	case *Mat:
		return jsonish(append([]V{}, t.Rows...))
	case *SQ, *SE:
		giveUp("query inside of a value")
	case *Obj:
		o := newObj()
		for _, k := range t.Keys {
			o.Set(k, jsonish(t.Vals[k]))
		}
		return o
	}
	return v
}

type marshalCase struct {
	Env    *Env
	Sts    []*St
	Ignore []string // variables which are not restored
	Base   *Env     // of the scope it is restored in
}

// restored is the scope with the variables as JSON has them.
func (sc *Scope) restored(c *marshalCase) *Scope {
	o := newObj()
	ignore := map[string]bool{}
	for _, k := range c.Ignore {
		ignore[k] = true
	}
	for _, f := range sc.frames {
		fr, ok := f.(objFrame)
		if !ok {
			giveUp("a frame without names")
		}
		for _, k := range fr.o.Keys {
			if ignore[k] {
				continue
			}
			v, _ := sc.resolve(k)
			switch v.(type) {
			case *SQ, *SE:
			default:
				v = jsonish(v)
			}
			if v != nil {
				o.Set(k, v)
			}
		}
	}
	r := &Scope{}
	r.push(objFrame{newObj().Set("NULL", nil)})
	r.push(objFrame{c.Base.obj()})
	r.push(objFrame{o})
	return r
}

func genMarshal(t *rapid.T) *marshalCase {
	g := newG(t)
	c := &marshalCase{Base: &Env{}}
	defer func() {
		if !g.chance(20) {
			return
		}
		for _, k := range c.Env.Names {
			if g.chance(20) {
				c.Ignore = append(c.Ignore, k)
				if g.chance(50) {
					c.Base.add(k, vInt(int64(g.n(0, 3))))
				}
			}
		}
	}()
	if g.chance(30) {
		p := genScoping(t)
		c.Env, c.Sts = p.Env, p.Sts
		return c
	}
	g.rich = true
	c.Env = g.stdEnv()
	names := []string{"X", "Y", "Z", "T", "X", "i", "u v", "select"}
	for n := g.n(1, 5); n > 0; n-- {
		name := names[g.n(0, len(names)-1)]
		if g.chance(50) {
			c.Sts = append(c.Sts, g.tableLet(name, g.n(0, 1), qopt{nested: true, limit: true}))
		} else {
			c.Sts = append(c.Sts, g.exprLet(name, g.pick("int", "num", "str", "bool", "list", "obj"), g.n(0, 2)))
		}
	}
	for n := g.n(1, 2); n > 0; n-- {
		q, _ := g.query(g.n(0, 1), qopt{nested: true, limit: true})
		c.Sts = append(c.Sts, &St{Q: q})
	}
	return c
}

func checkMarshal(r *R, c *marshalCase) {
	if recursive(c.Sts) {
		r.Class("undefined: recursive query")
		return
	}
	lets, queries := []*St{}, []*St{}
	for _, s := range c.Sts {
		if s.Let != "" {
			lets = append(lets, s)
		} else {
			queries = append(queries, s)
		}
	}
	want := [][]V{}
	why := tryModel(func() {
		m := newModel()
		sc := c.Env.scope()
		for _, s := range lets {
			m.exec(s, sc)
		}
		sc = sc.restored(c)
		for _, s := range queries {
			rows := m.exec(s, sc)
			for i, r := range rows {
				rows[i] = settle(r)
			}
			want = append(want, rows)
		}
	})
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	text := program(lets) + "\n" + program(queries)
	var got [][]V
	var data []byte
	fail := func(f string, a ...interface{}) {
		panic(failure{fmt.Sprintf(f, a...) + "\nprogram:\n" + text + "\nmarshalled: " + string(data) + "\nenv: " + show(c.Env.obj())})
	}
	msg := inBubble(r.T, func() {
		run := newRealScope(c.Env)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		exec := func(run *Run, sts []*St) (res [][]V) {
			if len(sts) == 0 {
				return nil
			}
			vqls, err := vfilter.MultiParse(program(sts))
			if err != nil {
				fail("the program does not parse: %v", err)
			}
			for _, v := range vqls {
				res = append(res, drain(run, v))
			}
			return res
		}
		exec(run, lets)
		write := func(s types.Scope) {
			item, err := marshal.Marshal(s, s)
			if err != nil {
				fail("the scope can not be marshalled: %v", err)
			}
			if data, err = json.Marshal(item); err != nil {
				fail("the marshalled scope is not JSON: %v", err)
			}
		}
		read := func() *Run {
			item := &types.MarshalItem{}
			if err := json.Unmarshal(data, item); err != nil {
				fail("%v", err)
			}
			fresh := newRealScope(c.Base)
			fresh.Ctx = ctx
			u := vfilter.NewUnmarshaller(c.Ignore)
			x, err := u.Unmarshal(u, fresh.Scope, item)
			if err != nil {
				fail("the scope can not be restored: %v", err)
			}
			s, ok := x.(types.Scope)
			if !ok {
				fail("a %T was restored", x)
			}
			return &Run{Ctx: ctx, Scope: s, Track: fresh.Track, Log: fresh.Log}
		}
		write(run.Scope)
		first := plainJSON(data)
		back := read()
		got = exec(back, queries)
		write(back.Scope)
		if second := plainJSON(data); len(c.Ignore) == 0 && !reflect.DeepEqual(first, second) {
			fail("the restored scope is marshalled differently: %s", jsonString(first))
		}
		back.Scope.Close()
		run.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s\nprogram:\n%s\nmarshalled: %s\nenv: %s", msg, text, data, show(c.Env.obj()))
	}
	n := 0
	for i := range queries {
		if !sameRows(want[i], got[i]) {
			r.Failf("query %d gives the wrong rows in the restored scope.\nprogram:\n%s\nmarshalled: %s\nenv: %s\nexpected %d rows:\n%s\ngot %d rows:\n%s",
				i, text, data, show(c.Env.obj()), len(want[i]), showRows(want[i]), len(got[i]), showRows(got[i]))
		}
		n += len(want[i])
	}
	r.Count("definitions", len(lets))
	r.NonTrivialIf(n > 0 && len(lets) > 0)
}

// plainJSON are the variables without comments and types of items.
func plainJSON(data []byte) map[string]interface{} {
	var x struct {
		Data struct {
			Vars map[string]struct {
				Data interface{} `json:"data"`
			} `json:"vars"`
		} `json:"data"`
	}
	if err := json.Unmarshal(data, &x); err != nil {
		return map[string]interface{}{"error": err.Error()}
	}
	r := map[string]interface{}{}
	for k, v := range x.Data.Vars {
		if v.Data != nil {
			r[k] = v.Data
		}
	}
	return r
}

func init() {
	register(&Prop{
		ID: "C18",
		Rule: "Random programs of variables and definitions with parameters and defaults, written to JSON and restored before the queries are run; non-trivial: " +
			"a definition and a row.",
		Arms: []*Arm{
			arm("scope", 20000, 400000, genMarshal, checkMarshal),
		},
	})
}
