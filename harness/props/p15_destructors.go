package props

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// Destructors: a tree of scopes against a model, and the lifetime of
// resources which plugins and functions open during a query.

// dtor describes a destructor.
type dtor struct {
	Id    int
	Sleep int   // seconds
	Again int   // adds itself again to the same scope that many times
	Adds  *dtor // adds another one to the scope Where
	Where int
	Close int // closes the scope, if not negative
}

type dOp struct {
	Op    string // copy, new, add, close, closed, temp (N copies which are closed again, the last first if Rev)
	Scope int
	D     *dtor
	N     int
	Rev   bool
}

type dCase struct{ Ops []dOp }

func genDtors(t *rapid.T) *dCase {
	g := newG(t)
	c := &dCase{}
	n := 1
	id := 0
	parent, closed := []int{-1}, []bool{false}
	ops := g.n(1, 25)
	for i := 0; i < ops; i++ {
		s := g.n(0, n-1)
		switch g.n(0, 10) {
		case 10:
			if !closed[s] {
				op := dOp{Op: "temp", Scope: s, N: g.n(1, 30), Rev: g.chance(30)}
				if g.chance(60) {
					id++
					op.D = &dtor{Id: id, Close: -1}
				}
				c.Ops = append(c.Ops, op)
			}
		case 0, 1, 2:
			op, p := "new", -1
			if !closed[s] && g.chance(80) {
				op, p = "copy", s
			}
			c.Ops = append(c.Ops, dOp{Op: op, Scope: s})
			parent, closed = append(parent, p), append(closed, false)
			n++
		case 3:
			c.Ops = append(c.Ops, dOp{Op: "close", Scope: s})
			closed[s] = true
			for j := range parent {
				if parent[j] >= 0 && closed[parent[j]] {
					closed[j] = true
				}
			}
		case 4:
			c.Ops = append(c.Ops, dOp{Op: "closed", Scope: s})
		default:
			id++
			d := &dtor{Id: id, Close: -1}
			switch g.n(0, 9) {
			case 0:
				d.Sleep = g.n(1, 100)
			case 1:
				d.Again = g.n(1, 3)
			case 2:
				id++
				d.Adds = &dtor{Id: id, Close: -1}
				d.Where = g.n(0, n-1)
			case 3:
				// A descendant of, or a scope apart from, the one which is
				// being closed.
				d.Close = g.n(0, n-1)
			}
			c.Ops = append(c.Ops, dOp{Op: "add", Scope: s, D: d})
		}
	}
	return c
}

// mScope is the model of a scope.
type mScope struct {
	parent   *mScope
	children []*mScope
	ds       []*dtor
	closed   bool
	closing  int
}

type dModel struct {
	scopes []*mScope
	trace  []string
	now    int
	depth  int // of destructors
}

func (m *dModel) add(s *mScope, d *dtor) bool {
	if s.closed {
		return false
	}
	s.ds = append(s.ds, d)
	return true
}

func (m *dModel) run(s *mScope, d *dtor) {
	m.trace = append(m.trace, fmt.Sprint(d.Id))
	if d.Sleep > 0 {
		if m.depth > 0 {
			giveUp("a slow destructor in a destructor")
		}
		if d.Sleep > 60 {
			m.now += 60
		} else {
			m.now += d.Sleep
		}
	}
	if d.Again > 0 {
		again := *d
		again.Again--
		m.trace = append(m.trace, fmt.Sprintf("again %v", m.add(s, &again)))
	}
	if d.Adds != nil {
		m.trace = append(m.trace, fmt.Sprintf("added %v", m.add(m.scopes[d.Where], d.Adds)))
	}
	if d.Close >= 0 {
		m.depth++
		m.close(m.scopes[d.Close])
		m.depth--
	}
}

func (m *dModel) close(s *mScope) {
	s.closing++
	if s.closing > 1 {
		giveUp("a scope is closed while it is being closed")
	}
	for _, c := range append([]*mScope{}, s.children...) {
		m.close(c)
	}
	if s.parent != nil {
		for i, c := range s.parent.children {
			if c == s {
				s.parent.children = append(append([]*mScope{}, s.parent.children[:i]...), s.parent.children[i+1:]...)
				break
			}
		}
	}
	for i := 0; i < 8; i++ {
		ds := s.ds
		s.ds = nil
		if len(ds) == 0 {
			break
		}
		for j := len(ds) - 1; j >= 0; j-- {
			m.run(s, ds[j])
		}
	}
	if len(s.ds) > 0 {
		giveUp("destructors without end")
	}
	s.closed = true
	s.closing--
}

func checkDtors(r *R, c *dCase) {
	var model *dModel
	var mres []string
	why := tryModel(func() {
		model = &dModel{scopes: []*mScope{{}}}
		for _, op := range c.Ops {
			s := model.scopes[op.Scope]
			switch op.Op {
			case "copy":
				if s.closed {
					giveUp("copy of a closed scope")
				}
				n := &mScope{parent: s}
				s.children = append(s.children, n)
				model.scopes = append(model.scopes, n)
			case "temp":
				if s.closed {
					giveUp("copy of a closed scope")
				}
				for i := 0; i < op.N && op.D != nil; i++ {
					model.trace = append(model.trace, fmt.Sprint(op.D.Id))
				}
			case "new":
				model.scopes = append(model.scopes, &mScope{})
			case "add":
				mres = append(mres, fmt.Sprintf("add %v", model.add(s, op.D)))
			case "close":
				model.close(s)
				mres = append(mres, fmt.Sprintf("closed at %d after %s", model.now, strings.Join(model.trace, " ")))
			case "closed":
				mres = append(mres, fmt.Sprintf("is closed %v", s.closed))
			}
		}
		for i := len(model.scopes) - 1; i >= 0; i-- {
			model.close(model.scopes[i])
		}
		mres = append(mres, fmt.Sprintf("end at %d after %s", model.now, strings.Join(model.trace, " ")))
	})
	if why != "" {
		r.Class("undefined: " + why)
		return
	}

	var res []string
	msg := inBubble(r.T, func() {
		start := time.Now()
		now := func() int { return int(time.Since(start) / time.Second) }
		run := newRealScope(nil)
		scopes := []types.Scope{run.Scope}
		var mu sync.Mutex
		var trace []string
		note := func(s string) {
			mu.Lock()
			trace = append(trace, s)
			mu.Unlock()
		}
		text := func() string {
			mu.Lock()
			defer mu.Unlock()
			return strings.Join(trace, " ")
		}
		var add func(s types.Scope, d *dtor) bool
		add = func(s types.Scope, d *dtor) bool {
			return s.AddDestructor(func() {
				note(fmt.Sprint(d.Id))
				if d.Again > 0 {
					again := *d
					again.Again--
					note(fmt.Sprintf("again %v", add(s, &again)))
				}
				if d.Adds != nil {
					note(fmt.Sprintf("added %v", add(scopes[d.Where], d.Adds)))
				}
				if d.Close >= 0 {
					scopes[d.Close].Close()
				}
				if d.Sleep > 0 {
					time.Sleep(time.Duration(d.Sleep) * time.Second)
				}
			}) == nil
		}
		for _, op := range c.Ops {
			s := scopes[op.Scope]
			switch op.Op {
			case "copy":
				scopes = append(scopes, s.Copy())
			case "temp":
				temps := []types.Scope{}
				for i := 0; i < op.N; i++ {
					t := s.Copy()
					if op.D != nil {
						add(t, op.D)
					}
					temps = append(temps, t)
				}
				for i := range temps {
					if op.Rev {
						i = len(temps) - 1 - i
					}
					temps[i].Close()
				}
			case "new":
				scopes = append(scopes, s.NewScope())
			case "add":
				res = append(res, fmt.Sprintf("add %v", add(s, op.D)))
			case "close":
				s.Close()
				res = append(res, fmt.Sprintf("closed at %d after %s", now(), text()))
			case "closed":
				res = append(res, fmt.Sprintf("is closed %v", s.IsClosed()))
			}
		}
		for i := len(scopes) - 1; i >= 0; i-- {
			scopes[i].Close()
		}
		res = append(res, fmt.Sprintf("end at %d after %s", now(), text()))
		time.Sleep(time.Hour)
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, jsonString(c))
	}
	if jsonString(res) != jsonString(mres) {
		r.Failf("the destructors run differently\n%s\nexpected:\n%s\ngot:\n%s",
			jsonString(c), strings.Join(mres, "\n"), strings.Join(res, "\n"))
	}
	r.NonTrivialIf(len(model.trace) > 1)
}

// Adding destructors while the scope is being closed: each of them is either
// refused or called.
type raceDtorCase struct {
	Adders, Each, Closers int
	Children              bool
}

func genRaceDtors(t *rapid.T) *raceDtorCase {
	g := newG(t)
	return &raceDtorCase{Adders: g.n(1, 4), Each: g.n(1, 60), Closers: g.n(1, 2), Children: g.chance(50)}
}

func checkRaceDtors(r *R, c *raceDtorCase) {
	run := newRealScope(nil)
	scope := run.Scope
	if c.Children {
		scope = scope.Copy()
	}
	var mu sync.Mutex
	accepted, called, open := map[int]int{}, map[int]int{}, 0
	var wg sync.WaitGroup
	begin := make(chan bool)
	for i := 0; i < c.Adders; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for j := 0; j < c.Each; j++ {
				id := i*1000 + j
				err := scope.AddDestructor(func() {
					mu.Lock()
					called[id]++
					mu.Unlock()
				})
				if err == nil {
					mu.Lock()
					accepted[id]++
					mu.Unlock()
				} else if !scope.IsClosed() {
					mu.Lock()
					open++
					mu.Unlock()
				}
			}
		}()
	}
	for i := 0; i < c.Closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			run.Scope.Close()
		}()
	}
	close(begin)
	wg.Wait()
	if len(accepted) > 0 && len(accepted) < c.Adders*c.Each {
		r.NonTrivial()
	}
	if open > 0 {
		r.Failf("a destructor was refused by a scope which is not closed\n%s", jsonString(c))
	}
	for id := range accepted {
		if called[id] != 1 {
			r.Failf("a destructor which was added to a scope while that was being closed was called %d times\n%s", called[id], jsonString(c))
		}
	}
	for id := range called {
		if accepted[id] != 1 {
			r.Failf("a destructor was refused and called\n%s", jsonString(c))
		}
	}
}

// Resources which are opened in a query.

type resources struct {
	mu     sync.Mutex
	opened []*handle
	errs   []string
	uses   int
	funcs  int
	maxf   int
	wrong  []string
}

type handle struct {
	id     int
	fn     bool
	closed int
}

func (self *resources) open(scope types.Scope, fn bool) *handle {
	self.mu.Lock()
	h := &handle{id: len(self.opened), fn: fn}
	self.opened = append(self.opened, h)
	if fn {
		self.funcs++
		if self.funcs > self.maxf {
			self.maxf = self.funcs
		}
	}
	self.mu.Unlock()
	err := scope.AddDestructor(func() {
		self.mu.Lock()
		defer self.mu.Unlock()
		h.closed++
		if fn {
			self.funcs--
		}
	})
	if err != nil {
		self.mu.Lock()
		h.closed++
		if fn {
			self.funcs--
		}
		self.errs = append(self.errs, err.Error())
		self.mu.Unlock()
	}
	return h
}

func (self *resources) left() int {
	self.mu.Lock()
	defer self.mu.Unlock()
	n := 0
	for _, h := range self.opened {
		if h.closed == 0 {
			n++
		}
	}
	return n
}

type openFunc struct{ r *resources }

func (self openFunc) Copy() types.FunctionInterface { return self }
func (self openFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "open"}
}
func (self openFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	return self.r.open(scope, true)
}

type useFunc struct{ r *resources }

func (self useFunc) Copy() types.FunctionInterface { return self }
func (self useFunc) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "use"}
}
func (self useFunc) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	v, _ := args.Get("h")
	if l, ok := v.(types.LazyExpr); ok {
		v = l.Reduce(ctx)
	}
	h, ok := v.(*handle)
	if !ok {
		self.r.mu.Lock()
		defer self.r.mu.Unlock()
		self.r.wrong = append(self.r.wrong, fmt.Sprintf("the resource is %T", v))
		return false
	}
	time.Sleep(time.Millisecond)
	self.r.mu.Lock()
	defer self.r.mu.Unlock()
	self.r.uses++
	if h.closed > 0 {
		self.r.wrong = append(self.r.wrong, "a resource was closed while the row is being evaluated")
	}
	return true
}

type openerPlugin struct{ r *resources }

type openerArgs struct {
	N     int64 `vfilter:"optional,field=n"`
	Delay int64 `vfilter:"optional,field=delay"`
}

func (self *openerPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "opener", ArgType: tm.AddType(scope, &openerArgs{})}
}

func (self *openerPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		arg := &openerArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, arg); err != nil {
			scope.Log("opener: %v", err)
			return
		}
		h := self.r.open(scope, false)
		for i := int64(0); i < arg.N; i++ {
			if arg.Delay > 0 {
				time.Sleep(time.Duration(arg.Delay) * time.Millisecond)
			}
			select {
			case <-ctx.Done():
				return
			case out <- ordereddict.NewDict().Set("H", h).Set("i", i).Set("m", i%2):
			}
		}
	}()
	return out
}

type resCase struct {
	Pre   []string
	Query string
	Flat  int // opens per row, in a query without nesting
	Stop  int // cancelled after that many rows, if not negative
}

type rgen struct {
	*G
	pre  []string
	n    int
	seen map[string]bool
}

func (g *rgen) lib(name, def string) string {
	if !g.seen[name] {
		g.seen[name] = true
		g.pre = append(g.pre, def)
	}
	return name
}

// use is an expression using the resource h. A query is possible where a
// column or an argument is.
func (g *rgen) use(h string, depth int) string {
	if depth > 0 && g.chance(15) {
		return g.sub(h, depth)
	}
	return g.useExpr(h, depth)
}

func (g *rgen) sub(h string, depth int) string {
	return fmt.Sprintf("{ SELECT %s AS u FROM %s }", g.use(h, depth-1), g.src(0))
}

func (g *rgen) useExpr(h string, depth int) string {
	if depth > 0 {
		switch g.G.n(0, 4) {
		case 0:
			return fmt.Sprintf("if(condition=%s, then=%s, else=%s)", g.pick("TRUE", "FALSE", "use(h="+h+")"), g.use(h, depth-1), g.use(h, depth-1))
		case 1:
			// A query in a list is run when the list is used.
			return fmt.Sprintf("(use(h=%s), use(h=%s))", h, h)
		case 2:
			return fmt.Sprintf("dict(x=%s)", g.use(h, depth-1))
		}
	}
	switch g.G.n(0, 4) {
	case 0:
		return g.lib("F", "LET F(r) = use(h=r)") + "(r=" + h + ")"
	case 1:
		return g.lib("Q", "LET Q(r) = SELECT use(h=r) AS u FROM range(start=0, end=2)") + "(r=" + h + ")"
	case 2:
		return g.lib("D", "LET D(r, s=use(h=open())) = use(h=r) AND s") + "(r=" + h + ")"
	default:
		return "use(h=" + h + ")"
	}
}

func (g *rgen) src(depth int) string {
	if depth > 0 {
		switch g.G.n(0, 4) {
		case 0:
			w := g.pick("", "", ", workers=3")
			return fmt.Sprintf("foreach(row={ %s }, query={ %s }%s)", g.q(depth-1), g.q(depth-1), w)
		case 1:
			return fmt.Sprintf("chain(a={ %s }, b={ %s })", g.q(depth-1), g.q(depth-1))
		case 2:
			return fmt.Sprintf("if(condition=%s, then={ %s }, else={ %s })", g.pick("TRUE", "FALSE", "use(h=open())"), g.q(depth-1), g.q(depth-1))
		case 3:
			g.n++
			name := fmt.Sprintf("V%d", g.n)
			g.pre = append(g.pre, fmt.Sprintf("LET %s(r) = %s", name, g.q(depth-1)))
			return name + "(r=" + g.pick("1", "open()") + ")"
		default:
			return fmt.Sprintf("foreach(row=[1, 2], query={ %s })", g.q(depth-1))
		}
	}
	return fmt.Sprintf("range(start=0, end=%d)", g.G.n(1, 3))
}

// q is a query which uses, in every row, resources opened in the row or by
// its source.
func (g *rgen) q(depth int) string {
	// Columns see the columns of the source, WHERE the aliases as well.
	cols, hs, ws := []string{}, []string{"open()"}, []string{"open()"}
	src := ""
	if g.chance(50) {
		src = fmt.Sprintf("opener(n=%d, delay=%d)", g.G.n(0, 3), g.G.n(0, 2)*5)
		hs = []string{"H", "H", "open()"}
		ws = hs
		if g.chance(70) {
			cols = append(cols, g.pick("*", "H", "m"))
		}
	} else {
		src = g.src(depth)
	}
	if g.chance(50) {
		cols = append(cols, "open() AS h1")
		ws = append(append([]string{}, ws...), "h1", "h1")
	}
	for i := g.G.n(1, 2); i > 0; i-- {
		cols = append(cols, fmt.Sprintf("%s AS u%d", g.use(hs[g.G.n(0, len(hs)-1)], g.G.n(0, 2)), i))
	}
	s := "SELECT " + strings.Join(cols, ", ") + " FROM " + src
	if g.chance(40) {
		s += " WHERE " + g.pick("TRUE", "FALSE", "ident(v="+g.use(ws[g.G.n(0, len(ws)-1)], 2)+")", "use(h="+ws[len(ws)-1]+")")
	}
	if g.chance(15) {
		s += " GROUP BY " + g.pick("u1", "use(h="+hs[0]+")")
	}
	if g.chance(15) {
		s += " ORDER BY u1"
	}
	if g.chance(7) {
		s += fmt.Sprintf(" LIMIT %d", g.G.n(0, 3))
	}
	return s
}

func genResources(t *rapid.T) *resCase {
	g := &rgen{G: newG(t), seen: map[string]bool{}}
	c := &resCase{Stop: -1}
	if g.chance(15) {
		n := g.G.n(1, 3)
		cols := []string{}
		for i := 0; i < n; i++ {
			cols = append(cols, fmt.Sprintf("open() AS h%d, use(h=open()) AS u%d", i, i))
		}
		// A column which is used by another one may be evaluated twice.
		c.Flat = 2*n + 1
		c.Query = fmt.Sprintf("SELECT %s FROM range(start=0, end=%d) WHERE %s", strings.Join(cols, ", "), g.G.n(3, 12), g.pick("u0", "TRUE", "use(h=h0)", "use(h=open())"))
		return c
	}
	c.Query = g.q(g.G.n(0, 3))
	c.Pre = g.pre
	if g.chance(25) {
		c.Stop = g.G.n(0, 3)
	}
	return c
}

func checkResources(r *R, c *resCase) {
	text := strings.Join(append(append([]string{}, c.Pre...), c.Query), "\n")
	res := &resources{}
	var fail string
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		run.Scope.AppendPlugins(&openerPlugin{res})
		run.Scope.AppendFunctions(openFunc{res}, useFunc{res})
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			panic(failure{err.Error() + "\n" + text})
		}
		// The row after the last one of a LIMIT may be on its way when the
		// query ends.
		stopped := strings.Contains(text, "LIMIT")
		for _, v := range vqls {
			rows := 0
			for range v.Eval(ctx, run.Scope) {
				rows++
				if v.Query != nil && c.Stop >= 0 && rows > c.Stop {
					stopped = true
					cancel()
					break
				}
			}
		}
		if stopped {
			// The query ends by itself.
			time.Sleep(time.Minute)
		}
		synctest.Wait()
		if n := res.left(); n > 0 {
			fail = fmt.Sprintf("%d resources of %d are open after the query ended", n, len(res.opened))
		}
		run.Scope.Close()
		time.Sleep(time.Minute)
		if stopped {
			// Cancellation may overtake the evaluation of a row.
			res.wrong, res.errs = nil, nil
		}
	})
	if msg != "" {
		r.Failf("%s\n%s", msg, text)
	}
	if fail != "" {
		r.Failf("%s\n%s", fail, text)
	}
	for _, h := range res.opened {
		if h.closed != 1 {
			r.Failf("the destructor of a resource was called %d times\n%s", h.closed, text)
		}
	}
	if len(res.wrong) > 0 {
		r.Failf("%s\n%s", res.wrong[0], text)
	}
	if len(res.errs) > 0 {
		r.Failf("a destructor was refused in the middle of a query: %s\n%s", res.errs[0], text)
	}
	if c.Flat > 0 && res.maxf > c.Flat {
		r.Failf("%d resources opened by functions are open at the same time, when each row opens %d\n%s", res.maxf, c.Flat, text)
	}
	r.Count("resources", len(res.opened))
	r.Count("uses", res.uses)
	r.NonTrivialIf(len(res.opened) > 1 && res.uses > 1)
}

func init() {
	register(&Prop{
		ID: "C15",
		Rule: "scopes: random trees of scopes with destructors (slow, repeated, adding others, closing other scopes), against a model (non-trivial: two calls); " +
			"race: destructors added by several goroutines while the scope is closed (non-trivial: some were refused and some not); " +
			"resources: random queries over plugins and functions which open resources, used in their own row or query, read to the end or cancelled (non-trivial: two resources and two uses).",
		Arms: []*Arm{
			arm("scopes", 20000, 400000, genDtors, checkDtors),
			arm("race", 20000, 300000, genRaceDtors, checkRaceDtors),
			arm("resources", 10000, 200000, genResources, checkResources),
		},
	})
}
