package props

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Throttling and statistics: each row which a query reads is charged.

// meter is a throttler which counts.
type meter struct {
	ops, closed int64
	next        types.Throttler
}

func (self *meter) ChargeOp() {
	atomic.AddInt64(&self.ops, 1)
	if self.next != nil {
		self.next.ChargeOp()
	}
}

func (self *meter) Close() {
	atomic.AddInt64(&self.closed, 1)
	if self.next != nil {
		self.next.Close()
	}
}

func (self *meter) n() int { return int(atomic.LoadInt64(&self.ops)) }

type meterCase struct {
	Env  *Env
	Sts  []*St
	Rate float64 // of the throttler, 0: only counts
	Real bool    // with a TimeThrottler
	Mode string  // root, copy, json
	Stop bool    // the scope is closed while the query runs
}

func checkMeter(r *R, c *meterCase) {
	if recursive(c.Sts) {
		r.Class("undefined: recursive query")
		return
	}
	last := len(c.Sts) - 1
	m := newModel()
	var want []V
	scanned := 0
	why := tryModel(func() {
		sc := c.Env.scope()
		for i, s := range c.Sts {
			if i == last {
				scanned = m.Scanned
			}
			want = m.exec(s, sc)
		}
		for i, x := range want {
			want[i] = settle(x)
		}
	})
	if why != "" {
		r.Class("undefined: " + why)
		return
	}
	text := program(c.Sts)
	tell := func() string { return "program:\n" + text + "\nenv: " + show(c.Env.obj()) }
	mt := &meter{}
	var got []V
	var stats map[string]uint64
	before := 0
	var took time.Duration
	var stop time.Time
	late := false
	others := 0
	msg := inBubble(r.T, func() {
		run := newRealScope(c.Env)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		run.Ctx = ctx
		root := run.Scope
		other := root.Copy()
		om := &meter{}
		other.SetThrottler(om)
		if c.Mode == "copy" {
			// All of the program is evaluated in a copy.
			run.Scope = root.Copy()
		}
		start := time.Now()
		if c.Real {
			mt.next = vfilter.NewTimeThrottler(c.Rate)
		}
		run.Scope.SetThrottler(mt)
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{err.Error() + "\n" + text})
		}
		for _, v := range vqls[:last] {
			drain(run, v)
		}
		before = mt.n()
		switch {
		case c.Stop:
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				drain(run, vqls[last])
			}()
			stop = time.Now().Add(time.Millisecond)
			time.Sleep(time.Millisecond)
			run.Scope.Close()
			wg.Wait()
		case c.Mode == "json":
			s, err := vfilter.OutputJSON(vqls[last], ctx, run.Scope, func(rows []types.Row) ([]byte, error) {
				got = append(got, V("encoded"))
				for _, row := range rows {
					got = append(got, canon(row))
				}
				return json.Marshal(len(rows))
			})
			if err != nil || string(s) != fmt.Sprint(len(got)-1) {
				panic(failure{fmt.Sprintf("OutputJSON gives %q, %v for %d rows\n%s", s, err, len(got)-1, text)})
			}
			got = got[1:]
		default:
			got = drain(run, vqls[last])
		}
		took = time.Since(start)
		late = c.Stop && time.Now().After(stop)
		if !c.Stop && atomic.LoadInt64(&mt.closed) != 0 {
			panic(failure{"the throttler was closed before its scope\n" + text})
		}
		stats = map[string]uint64{}
		for _, k := range []string{"RowsScanned", "PluginsCalled", "FunctionsCalled"} {
			v, _ := root.GetStats().Snapshot().Get(k)
			stats[k] = v.(uint64)
		}
		run.Scope.Close()
		others = om.n()
		root.Close()
		if atomic.LoadInt64(&mt.closed) != 1 {
			panic(failure{fmt.Sprintf("the throttler was closed %d times with its scope\n%s", mt.closed, text)})
		}
		// Whoever still has it does not wait.
		t := time.Now()
		for i := 0; i < 3; i++ {
			mt.ChargeOp()
			atomic.AddInt64(&mt.ops, -1)
		}
		if c.Real && c.Rate > 0 && time.Since(t) != 0 {
			panic(failure{"a closed throttler waits"})
		}
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, tell())
	}
	r.Count("rows read", m.Scanned)
	if c.Stop {
		if late {
			r.Failf("a query of a closed scope is still throttled: it took %v\n%s", took, tell())
		}
		r.Count("closed while running", 1)
		r.NonTrivialIf(m.Scanned > 3)
		return
	}
	if !sameRows(want, got) {
		r.Failf("the query gives the wrong rows with a throttler.\n%s\nexpected\n%s\ngot\n%s", tell(), showRows(want), showRows(got))
	}
	if others != 0 {
		r.Failf("the throttler of another scope was charged %d times\n%s", others, tell())
	}
	if m.Ahead {
		r.Class("not counted: a query which ends early")
		return
	}
	ops := m.Scanned
	if c.Mode == "json" {
		ops += len(want)
	}
	if mt.n() != ops || before != scanned {
		r.Failf("%d operations were charged (%d before the last statement), expected %d (%d)\n%s", mt.n(), before, ops, scanned, tell())
	}
	for k, n := range map[string]int{"RowsScanned": m.Scanned, "PluginsCalled": m.Plugins, "FunctionsCalled": m.Calls} {
		if stats[k] != uint64(n) {
			r.Failf("the statistics tell that %s is %d, expected %d\n%s", k, stats[k], n, tell())
		}
	}
	if c.Real {
		period := time.Duration(1e9 / c.Rate)
		min := time.Duration(ops) * period
		if c.Rate == 0 || c.Rate >= 100 {
			min = 0
		}
		if took != min {
			r.Failf("%d operations at %v per second took %v, expected %v\n%s", ops, c.Rate, took, min, tell())
		}
		r.Count("seconds throttled", int(took/time.Second))
	}
	r.Count("plugins", m.Plugins)
	r.Count("functions", m.Calls)
	r.NonTrivialIf(m.Scanned > 3)
}

func genMeter(t *rapid.T, real bool) *meterCase {
	g := newG(t)
	g.rich = g.chance(40)
	if g.chance(50) {
		g.extra = append(g.extra, g.fnCall)
	}
	c := &meterCase{Env: g.stdEnv(), Mode: g.pick("root", "root", "copy", "json"), Real: real}
	if real {
		c.Rate = []float64{0, 0.5, 1, 3, 10, 64, 99, 100, 1000}[g.n(0, 8)]
		c.Stop = g.chance(20) && c.Rate > 0 && c.Rate < 100
	}
	names := []string{"X", "Y", "Z"}
	for k := g.n(0, 2); k > 0; k-- {
		if g.chance(50) {
			c.Sts = append(c.Sts, g.tableLet(names[k], g.n(0, 1), qopt{nested: true}))
		} else {
			c.Sts = append(c.Sts, g.exprLet(names[k], g.pick("int", "str", "bool", "list"), g.n(1, 2)))
		}
	}
	var q *Q
	if g.chance(60) {
		q, _ = g.query(g.n(0, 2), qopt{nested: true, group: g.chance(40), agg: g.chance(30), limit: g.chance(10)})
	} else {
		q, _ = g.plugQuery(g.n(1, 2))
	}
	c.Sts = append(c.Sts, &St{Q: q})
	return c
}

func init() {
	register(&Prop{
		ID: "C27",
		Rule: "Random programs of definitions and queries with a throttler which counts, on the scope or a copy of it, for rows or OutputJSON, and (second arm) with a TimeThrottler of a random rate on a virtual clock, " +
			"the scope of which may be closed; non-trivial: four rows are read.",
		Arms: []*Arm{
			arm("count", 20000, 400000, func(t *rapid.T) *meterCase { return genMeter(t, false) }, checkMeter),
			arm("rate", 20000, 400000, func(t *rapid.T) *meterCase { return genMeter(t, true) }, checkMeter),
		},
	})
}
