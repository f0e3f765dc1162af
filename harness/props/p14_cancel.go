package props

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// Cancellation and termination on a virtual clock.

// tickPlugin emits n rows (or never stops) with a delay before each, until
// its context is cancelled. It counts how many run.
type tickPlugin struct {
	mu     sync.Mutex
	active int
	calls  int
}

type tickArgs struct {
	N     int64 `vfilter:"optional,field=n"`
	Delay int64 `vfilter:"optional,field=delay"`
}

func (self *tickPlugin) add(n int) {
	self.mu.Lock()
	self.active += n
	if n > 0 {
		self.calls++
	}
	self.mu.Unlock()
}

func (self *tickPlugin) running() int {
	self.mu.Lock()
	defer self.mu.Unlock()
	return self.active
}

func (self *tickPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "tick", ArgType: tm.AddType(scope, &tickArgs{})}
}

func (self *tickPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	self.add(1)
	go func() {
		defer self.add(-1)
		defer close(out)
		arg := &tickArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
			scope.Log("tick: %v", err)
			return
		}
		for i := int64(0); arg.N < 0 || i < arg.N; i++ {
			if arg.Delay > 0 {
				select {
				case <-ctx.Done():
					return
				case <-time.After(time.Duration(arg.Delay) * time.Millisecond):
				}
			} else if arg.N < 0 {
				// Virtual time does not pass in a loop which never waits.
				select {
				case <-ctx.Done():
					return
				case <-time.After(time.Millisecond):
				}
			}
			select {
			case <-ctx.Done():
				return
			case out <- ordereddict.NewDict().Set("a", i).Set("b", i%3).Set("c", []int64{i, i + 1}):
			}
		}
	}()
	return out
}

// slowFunc takes some time, unless it is cancelled.
type slowFunc struct{}

func (self slowFunc) Copy() types.FunctionInterface { return self }
func (self slowFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "slow"}
}
func (self slowFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	select {
	case <-ctx.Done():
	case <-time.After(50 * time.Millisecond):
	}
	return int64(1)
}

type cancelCase struct {
	Pre     []string // LET definitions
	Query   string
	Mode    string // rows, time, none
	Rows    int
	At      int // milliseconds
	Drain   bool
	Limited bool // ends by itself
	Inf     bool
}

type cgen struct {
	*G
	inf  bool // an endless source may be used
	used bool
	n    int
	pre  []string
}

func (g *cgen) tick() string {
	n := g.G.n(0, 4)
	if g.inf && g.chance(50) {
		g.used = true
		return fmt.Sprintf("tick(n=-1, delay=%d)", g.G.n(0, 3)*10)
	}
	return fmt.Sprintf("tick(n=%d, delay=%d)", n, g.G.n(0, 3)*10)
}

func (g *cgen) src(depth int) string {
	if depth <= 0 {
		if g.chance(20) {
			return fmt.Sprintf("range(start=0, end=%d)", g.G.n(1, 5))
		}
		return g.tick()
	}
	switch g.G.n(0, 7) {
	case 0, 1:
		w := ""
		if g.chance(50) {
			w = fmt.Sprintf(", workers=%d", g.G.n(1, 4))
		}
		return fmt.Sprintf("foreach(row={ %s }, query={ %s }%s)", g.q(depth-1), g.q(depth-1), w)
	case 2:
		async := ""
		if g.chance(40) {
			async = ", async=TRUE"
		}
		return fmt.Sprintf("chain(a={ %s }, b={ %s }%s)", g.q(depth-1), g.q(depth-1), async)
	case 3:
		return fmt.Sprintf("if(condition=%s, then={ %s }, else={ %s })", g.pick("TRUE", "FALSE", "slow()"), g.q(depth-1), g.q(depth-1))
	case 4:
		return fmt.Sprintf("flatten(query={ %s })", g.q(depth-1))
	case 5:
		g.n++
		name := fmt.Sprintf("V%d", g.n)
		g.pre = append(g.pre, fmt.Sprintf("LET %s = %s", name, g.q(depth-1)))
		return name
	case 6:
		g.n++
		name := fmt.Sprintf("V%d", g.n)
		g.pre = append(g.pre, fmt.Sprintf("LET %s(x) = %s", name, g.q(depth-1)))
		return name + "(x=1)"
	default:
		return fmt.Sprintf("foreach(row={ %s })", g.q(depth-1))
	}
}

func (g *cgen) col() string {
	// A nested query is read to its end.
	inf := g.inf
	g.inf = false
	defer func() { g.inf = inf }()
	switch g.G.n(0, 5) {
	case 0:
		return "a"
	case 1:
		return "b"
	case 2:
		return "slow() AS s"
	case 3:
		return "{ SELECT a FROM " + g.tick() + " } AS sub"
	case 4:
		return "*"
	default:
		return "count() AS n"
	}
}

func (g *cgen) q(depth int) string {
	group, order := g.chance(12), g.chance(12)
	if group || order {
		inf := g.inf
		if g.chance(70) {
			g.inf = false
		}
		defer func() { g.inf = inf }()
	}
	s := "SELECT a, " + g.col() + " FROM " + g.src(depth)
	if g.chance(30) {
		s += " WHERE " + g.pick("a", "NOT a = 2", "slow()", "b < 2", "FALSE", "a < 0")
	}
	if group {
		s += " GROUP BY b"
	}
	if order {
		s += " ORDER BY a"
	}
	if g.chance(20) {
		s += fmt.Sprintf(" LIMIT %d", g.G.n(0, 4))
	}
	return s
}

func genCancel(t *rapid.T) *cancelCase {
	g := &cgen{G: newG(t)}
	c := &cancelCase{Mode: g.pick("rows", "rows", "time", "time", "deadline", "before", "none", "none"), Rows: g.G.n(0, 4), At: g.G.n(0, 150), Drain: g.chance(50)}
	g.inf = c.Mode != "none"
	c.Query = g.q(g.G.n(0, 3))
	c.Pre = g.pre
	c.Inf = g.used
	return c
}

const cancelSlack = 30 * 24 * time.Hour

func checkCancel(r *R, c *cancelCase) {
	text := strings.Join(append(append([]string{}, c.Pre...), c.Query), "\n")
	desc := fmt.Sprintf("%s\n%s", text, jsonString(c))
	rows := 0
	cancelled := false
	var stuck string
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		p := &tickPlugin{}
		run.Scope.AppendPlugins(p)
		run.Scope.AppendFunctions(slowFunc{})
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{err.Error() + "\n" + text})
		}
		var ch <-chan types.Row
		for i, v := range vqls {
			if i == len(vqls)-1 {
				switch c.Mode {
				case "deadline":
					var stop func()
					ctx, stop = context.WithTimeout(ctx, time.Duration(c.At)*time.Millisecond)
					defer stop()
				case "before":
					cancel()
				}
			}
			out := v.Eval(ctx, run.Scope)
			if i < len(vqls)-1 {
				for range out {
				}
				continue
			}
			ch = out
		}
		var timer <-chan time.Time
		if c.Mode == "time" || c.Mode == "deadline" {
			timer = time.After(time.Duration(c.At) * time.Millisecond)
		}
		wait := cancelSlack
		if c.Inf {
			wait = 2 * time.Second
		}
		limit := time.After(wait)
	loop:
		for {
			if c.Mode == "before" || (c.Mode == "rows" && rows >= c.Rows) {
				cancelled = true
				break
			}
			select {
			case _, ok := <-ch:
				if !ok {
					break loop
				}
				rows++
				if c.Mode == "none" && rows > 100000 {
					break loop
				}
			case <-timer:
				cancelled = true
				break loop
			case <-limit:
				// An endless source which emits nothing in time.
				cancelled = true
				break loop
			}
		}
		if cancelled {
			cancel()
			start := time.Now()
			if c.Drain {
				for range ch {
				}
			}
			synctest.Wait()
			if n := p.running(); n > 0 {
				stuck = fmt.Sprintf("%d sources are running after the query was cancelled", n)
			} else if time.Since(start) > 0 {
				stuck = fmt.Sprintf("the query ends %v after it was cancelled", time.Since(start))
			}
			if !c.Drain {
				// The output is closed, apart from a row on its way.
				select {
				case _, ok := <-ch:
					if ok {
						synctest.Wait()
						select {
						case <-ch:
						default:
							stuck = "the output is not closed after the query was cancelled"
						}
					}
				default:
					stuck = "the output is not closed after the query was cancelled"
				}
			}
		} else {
			// The query has ended: so have its sources.
			synctest.Wait()
			if n := p.running(); n > 0 {
				stuck = fmt.Sprintf("%d sources are running after the query ended", n)
			}
		}
		run.Scope.Close()
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, desc)
	}
	if stuck != "" {
		r.Failf("%s\n%s", stuck, desc)
	}
	r.Class(c.Mode)
	if cancelled {
		r.Count("cancelled", 1)
	}
	r.NonTrivialIf(cancelled || rows > 0)
}

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "Random nestings of foreach (with workers), chain, if, flatten, stored queries, subqueries, GROUP BY, ORDER BY and LIMIT over sources that are slow or never end, cancelled after some rows or some (virtual) time, " +
			"with the output read to its end or not at all; non-trivial: cancelled before the end, or a row.",
		Assumptions: []string{"plugins and functions return when their context is cancelled"},
		Arms: []*Arm{
			arm("cancel", 15000, 300000, genCancel, checkCancel),
		},
	})
}
