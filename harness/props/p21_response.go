package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	vfilter "www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// Responses in parts, on a virtual clock.

type respCase struct {
	Waits    []int // milliseconds before each row
	MaxRows  int
	MaxWait  int // seconds
	Cancel   int // milliseconds, 0: never
	Slow     int // milliseconds the consumer takes for each part
	FailEnc  []int
	Filter   int // WHERE id % ... : only rows below
	NotADict bool
	Extra    []int // rows with a column of their own, for SELECT *
}

// timedPlugin emits rows at given times.
type timedPlugin struct {
	waits []int
	mu    sync.Mutex
	sent  []time.Time
	kind  bool
	extra map[int]bool
}

type goRow struct {
	Id   int64
	Name string
}

func (self *timedPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: "timed"}
}

func (self *timedPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for i, w := range self.waits {
			if w > 0 {
				select {
				case <-ctx.Done():
					return
				case <-time.After(time.Duration(w) * time.Millisecond):
				}
			}
			var row types.Row = ordereddict.NewDict().Set("Id", int64(i)).Set("Name", "n"+itoa(i))
			if self.extra[i] {
				row.(*ordereddict.Dict).Set("Extra"+itoa(i), int64(i))
			}
			if self.kind {
				row = &goRow{int64(i), "n" + itoa(i)}
			}
			select {
			case <-ctx.Done():
				return
			case out <- row:
				self.mu.Lock()
				self.sent = append(self.sent, time.Now())
				self.mu.Unlock()
			}
		}
	}()
	return out
}

func genResp(t *rapid.T) *respCase {
	g := newG(t)
	c := &respCase{MaxRows: g.n(1, 6), MaxWait: g.n(1, 5), NotADict: g.chance(20)}
	kind := g.n(0, 2)
	for i := g.n(0, 25); i > 0; i-- {
		switch kind {
		case 0:
			c.Waits = append(c.Waits, 0)
		case 1:
			c.Waits = append(c.Waits, g.n(0, 3)*700+1)
		default:
			w := 0
			if g.chance(30) {
				w = g.n(1, 4000)
			}
			c.Waits = append(c.Waits, w)
		}
	}
	if g.chance(30) {
		c.Cancel = g.n(1, 9000)
	}
	if g.chance(20) {
		c.Slow = g.n(1, 3000)
	}
	if g.chance(25) {
		for i := g.n(1, 3); i > 0; i-- {
			c.FailEnc = append(c.FailEnc, g.n(0, 5))
		}
	}
	if !c.NotADict && g.chance(30) {
		for i := range c.Waits {
			if g.chance(40) {
				c.Extra = append(c.Extra, i)
			}
		}
	}
	c.Filter = 1000
	if g.chance(20) {
		c.Filter = g.n(0, 5)
	}
	return c
}

func checkResp(r *R, c *respCase) {
	type part struct {
		res  *vfilter.VFilterJsonResult
		at   time.Duration
		rows []int64
	}
	var parts []part
	var sent []time.Duration
	var closed time.Duration
	encodes := 0
	failedLast := false
	columns := "Id, Name"
	extra := map[int]bool{}
	for _, i := range c.Extra {
		extra[i] = true
		columns = "*"
	}
	var mu sync.Mutex
	msg := inBubble(r.T, func() {
		run := newRealScope(nil)
		p := &timedPlugin{waits: c.Waits, kind: c.NotADict, extra: extra}
		run.Scope.AppendPlugins(p)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		vql, err := vfilter.Parse(fmt.Sprintf("SELECT %s FROM timed() WHERE Id < %d", columns, c.Filter))
		if err != nil {
			panic(failure{err.Error()})
		}
		start := time.Now()
		if c.Cancel > 0 {
			go func() {
				select {
				case <-time.After(time.Duration(c.Cancel)*time.Millisecond + 500*time.Microsecond):
					cancel()
				case <-ctx.Done():
				}
			}()
		}
		encoder := func(rows []types.Row) ([]byte, error) {
			mu.Lock()
			defer mu.Unlock()
			encodes++
			for _, f := range c.FailEnc {
				if f == encodes-1 {
					failedLast = true
					return nil, errors.New("can not encode")
				}
			}
			failedLast = false
			return json.Marshal(rows)
		}
		for res := range vfilter.GetResponseChannel(vql, ctx, run.Scope, encoder, c.MaxRows, c.MaxWait) {
			p := part{res: res, at: time.Since(start)}
			var rows []struct {
				Id   int64
				Name string
			}
			if err := json.Unmarshal(res.Payload, &rows); err != nil {
				panic(failure{fmt.Sprintf("payload %q: %v", res.Payload, err)})
			}
			for _, x := range rows {
				p.rows = append(p.rows, x.Id)
				if x.Name != "n"+show(x.Id) {
					panic(failure{fmt.Sprintf("row %d has the name %q", x.Id, x.Name)})
				}
			}
			parts = append(parts, p)
			if c.Slow > 0 {
				time.Sleep(time.Duration(c.Slow) * time.Millisecond)
			}
		}
		closed = time.Since(start)
		cancel()
		run.Scope.Close()
		p.mu.Lock()
		defer p.mu.Unlock()
		for _, t := range p.sent {
			sent = append(sent, t.Sub(start))
		}
	})
	desc := jsonString(c)
	if msg != "" {
		r.Failf("%s\n%s", msg, desc)
	}
	wait := time.Duration(c.MaxWait) * time.Second
	cancelAt := time.Duration(c.Cancel)*time.Millisecond + 500*time.Microsecond
	next := int64(0)
	prev := time.Duration(0)
	for i, p := range parts {
		if p.res.Part != i {
			r.Failf("part %d has the number %d\n%s", i, p.res.Part, desc)
		}
		if p.res.TotalRows != len(p.rows) {
			r.Failf("part %d says %d rows, and has %d\n%s", i, p.res.TotalRows, len(p.rows), desc)
		}
		if len(p.rows) > c.MaxRows && len(c.FailEnc) == 0 {
			r.Failf("part %d has %d rows\n%s", i, len(p.rows), desc)
		}
		if len(p.rows) > 0 {
			// Those of its first row.
			want := []string{"Id", "Name"}
			if id := int(p.rows[0]); extra[id] {
				want = append(want, "Extra"+itoa(id))
			}
			if fmt.Sprint(p.res.Columns) != fmt.Sprint(want) {
				r.Failf("part %d has the columns %v, expected %v\n%s", i, p.res.Columns, want, desc)
			}
		} else if i < len(parts)-1 {
			r.Failf("part %d of %d is empty\n%s", i, len(parts), desc)
		}
		for _, id := range p.rows {
			if id != next {
				r.Failf("row %d follows %d\n%s", id, next-1, desc)
			}
			next++
		}
		if i < len(parts)-1 && len(p.rows) < c.MaxRows && p.at-prev < wait && c.Slow == 0 && len(c.FailEnc) == 0 {
			r.Failf("part %d has only %d rows, %v after the one before\n%s", i, len(p.rows), p.at-prev, desc)
		}
		// No row waits for longer than max_wait.
		if c.Slow == 0 && len(c.FailEnc) == 0 {
			for _, id := range p.rows {
				if p.at-sent[id] > wait {
					r.Failf("row %d of %v is in part %d at %v\n%s", id, sent[id], i, p.at, desc)
				}
			}
		}
		prev = p.at
	}
	// Every row arrives, or all those before the cancellation.
	all := int64(0)
	for i := range c.Waits {
		if i < len(sent) && (c.Cancel == 0 || sent[i] < cancelAt) && i < c.Filter {
			all++
		}
	}
	if c.Cancel == 0 && len(sent) != len(c.Waits) {
		r.Failf("the query stopped after %d rows of %d\n%s", len(sent), len(c.Waits), desc)
	}
	if !failedLast && c.Slow == 0 && next != all {
		r.Failf("%d rows arrive of %d\n%s", next, all, desc)
	}
	if !failedLast && next < all && c.Cancel == 0 {
		r.Failf("%d rows arrive of %d\n%s", next, all, desc)
	}
	if c.Cancel > 0 && c.Slow == 0 && closed > cancelAt {
		r.Failf("the channel closes at %v after cancelling at %v\n%s", closed, cancelAt, desc)
	}
	r.NonTrivialIf(len(parts) >= 2)
	r.Count("parts", len(parts))
	if c.Cancel > 0 && closed == cancelAt {
		r.Count("cancelled", 1)
	}
}

// OutputJSON gives all of the rows at once.
func checkOutput(r *R, c *progCase) {
	q := c.Sts[len(c.Sts)-1]
	text := program([]*St{q})
	if len(c.Sts) != 1 {
		panic("harness: one statement")
	}
	var rows []V
	var out []byte
	msg := inBubble(r.T, func() {
		for i := 0; i < 2; i++ {
			run := newRealScope(c.Env)
			ctx, cancel := context.WithCancel(context.Background())
			run.Ctx = ctx
			vql, err := vfilter.Parse(text)
			if err != nil {
				panic(failure{err.Error()})
			}
			if i == 0 {
				rows = drain(run, vql)
			} else {
				var seen []types.Row
				out, err = vfilter.OutputJSON(vql, ctx, run.Scope, func(rows []types.Row) ([]byte, error) {
					seen = rows
					return []byte("x"), nil
				})
				if err != nil || string(out) != "x" {
					panic(failure{fmt.Sprintf("OutputJSON returns %q, %v", out, err)})
				}
				got := []V{}
				for _, x := range seen {
					got = append(got, canon(x))
				}
				if !sameRows(rows, got) {
					panic(failure{fmt.Sprintf("OutputJSON encodes other rows.\nprogram:\n%s\nenv: %s\nexpected:\n%s\ngot:\n%s", text, show(c.Env.obj()), showRows(rows), showRows(got))})
				}
			}
			run.Scope.Close()
			cancel()
		}
	})
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text)
	}
	r.NonTrivialIf(len(rows) > 0)
}

func init() {
	register(&Prop{
		ID: "C21",
		Rule: "channel: queries whose rows arrive at random times on a virtual clock, with random part sizes, waits, cancellation times, slow consumers and failing encoders (non-trivial: two parts); " +
			"output: OutputJSON and Eval on random queries (non-trivial: a row).",
		Arms: []*Arm{
			arm("channel", 20000, 400000, genResp, checkResp),
			arm("output", 5000, 60000, func(t *rapid.T) *progCase {
				g := newG(t)
				c := &progCase{Env: g.stdEnv()}
				q, _ := g.query(g.n(0, 1), qopt{nested: true, order: true, group: true})
				c.Sts = []*St{{Q: q}}
				return c
			}, checkOutput),
		},
	})
}
