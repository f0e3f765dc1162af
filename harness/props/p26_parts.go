package props

import (
	"context"

	"github.com/Velocidex/ordereddict"
	"pgregory.net/rapid"
	"www.velocidex.com/golang/vfilter/aggregators"
	"www.velocidex.com/golang/vfilter/materializer"
	"www.velocidex.com/golang/vfilter/types"
)

// Parts of the engine which the host replaces.

// Parts tells which parts are replaced: a sorter which reverses the order, a
// grouper which keeps the first row of each bin and the last bin first, and a
// materializer which reverses the rows.
type Parts struct{ Sort, Group, Mat, Plain bool }

// hostParts is only set by the checks which use it.
var hostParts Parts

func reverse[T any](l []T) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
}

func materialized(rows []V) V {
	if hostParts.Mat {
		rows = append([]V{}, rows...)
		reverse(rows)
	}
	return &Mat{rows}
}

func (p Parts) install(s types.Scope) {
	if p.Sort {
		s.SetSorter(hostSorter{})
	}
	if p.Group {
		s.SetGrouper(hostGrouper{})
	}
	if p.Mat {
		s.SetMaterializer(hostMaterializer{p.Plain})
	}
}

func emitRows(ctx context.Context, f func(yield func(types.Row) bool)) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		f(func(row types.Row) bool {
			select {
			case <-ctx.Done():
				return false
			case out <- row:
				return true
			}
		})
	}()
	return out
}

type hostSorter struct{}

func (self hostSorter) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	return emitRows(ctx, func(yield func(types.Row) bool) {
		rows := []V{}
		real := map[*Obj]types.Row{}
		for row := range input {
			o := canon(row).(*Obj)
			rows = append(rows, o)
			real[o] = row
		}
		sorted := sortRows(rows, key, desc)
		reverse(sorted)
		for _, o := range sorted {
			if !yield(real[o.(*Obj)]) {
				return
			}
		}
	})
}

type hostGrouper struct{}

func (self hostGrouper) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	return emitRows(ctx, func(yield func(types.Row) bool) {
		sub := scope.Copy()
		defer sub.Close()
		first := map[string]*ordereddict.Dict{}
		ags := map[string]types.AggregatorCtx{}
		order := []string{}
		for {
			row, _, bin, row_scope, err := actor.GetNextRow(ctx, sub)
			if err != nil {
				break
			}
			if ags[bin] == nil {
				ags[bin] = aggregators.NewAggregatorCtx()
				order = append(order, bin)
			}
			row_scope.SetAggregatorCtx(ags[bin])
			d := actor.MaterializeRow(ctx, row, row_scope)
			if first[bin] == nil {
				first[bin] = d
			}
			row_scope.Close()
		}
		reverse(order)
		for _, bin := range order {
			if !yield(first[bin]) {
				return
			}
		}
	})
}

func (self *hostQuery) Materialize(ctx context.Context, scope types.Scope) types.Any {
	return self.rows
}

type hostMaterializer struct{ plain bool }

// hostQuery is a stored query of the host.
type hostQuery struct{ rows []types.Row }

func (self *hostQuery) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	return emitRows(ctx, func(yield func(types.Row) bool) {
		for _, row := range self.rows {
			if !yield(row) {
				return
			}
		}
	})
}

func (self hostMaterializer) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	rows := []types.Row{}
	for row := range query.Eval(ctx, scope) {
		rows = append(rows, row)
	}
	reverse(rows)
	if self.plain {
		return &hostQuery{rows}
	}
	return materializer.NewInMemoryMatrializer(rows)
}

type partsCase struct {
	Parts Parts
	Env   *Env
	Sts   []*St
}

func checkParts(r *R, c *partsCase) {
	hostParts = c.Parts
	defer func() { hostParts = Parts{} }()
	want, _, _, ok := differ(r, c.Env, c.Sts)
	if !ok {
		return
	}
	n := countRows(want)
	r.Count("rows", n)
	sorts, groups, mats := 0, 0, 0
	for _, s := range c.Sts {
		if s.Op == "<=" {
			mats++
		}
		walkQueries(s.Q, func(q *Q) {
			if q.Order != "" {
				sorts++
			}
			if len(q.Group) > 0 {
				groups++
			}
		})
	}
	if c.Parts.Sort {
		r.Count("ORDER BY by the host's sorter", sorts)
	} else {
		sorts = 0
	}
	if c.Parts.Group {
		r.Count("GROUP BY by the host's grouper", groups)
	} else {
		groups = 0
	}
	if c.Parts.Mat {
		r.Count("LET by the host's materializer", mats)
	} else {
		mats = 0
	}
	r.NonTrivialIf(n > 1 && sorts+groups+mats > 0)
}

func genParts(t *rapid.T) *partsCase {
	g := newG(t)
	g.rich = true
	c := &partsCase{Env: g.stdEnv(), Parts: Parts{Sort: true, Group: g.chance(50), Mat: g.chance(50), Plain: g.chance(40)}}
	o := qopt{nested: true, limit: true, order: true, group: true}
	for n := g.n(0, 3); n > 0; n-- {
		c.Sts = append(c.Sts, g.tableLet(g.pick("X", "Y", "Z"), g.n(0, 1), o))
	}
	if len(c.Sts) == 0 && g.chance(70) {
		// Aggregates of queries which are evaluated again are not defined,
		// and behind a LIMIT they may have run over one row more.
		o.agg, o.limit = true, false
	}
	for n := g.n(1, 2); n > 0; n-- {
		q, _ := g.query(g.n(0, 2), o)
		c.Sts = append(c.Sts, &St{Q: q})
	}
	return c
}
