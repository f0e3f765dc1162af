package props

import (
	"fmt"

	"pgregory.net/rapid"
)

// Large results: whatever their number, the rows of a query are stored
// completely, and evaluated once.

type largeCase struct {
	N     int
	Place int
}

var largePlaces = []struct{ name, text string }{
	{"materialized LET", "LET X <= %s SELECT * FROM X"},
	{"materialized LET, member", "LET X <= %s SELECT * FROM foreach(row=X._value, query={ SELECT * FROM scope() }) WHERE FALSE SELECT * FROM X"},
	{"LET", "LET X = %s SELECT * FROM X"},
	{"dict", "LET D <= dict(a={ %s }) SELECT * FROM foreach(row=D.a)"},
	{"column", "LET T <= SELECT { %s } AS a FROM scope() SELECT * FROM foreach(row=T[0].a)"},
	{"argument", "LET D <= ident(v={ %s }) SELECT * FROM foreach(row=D)"},
	{"foreach", "SELECT * FROM foreach(row={ %s })"},
	{"chain", "SELECT * FROM chain(a={ %s })"},
	{"if", "SELECT * FROM if(condition=1, then={ %s })"},
	{"subquery", "SELECT * FROM foreach(row={ SELECT * FROM foreach(row={ %s }, query={ SELECT _value, t FROM scope() }) })"},
	{"parameter", "LET F(p) = SELECT * FROM p SELECT * FROM F(p={ %s })"},
	{"order", "SELECT * FROM foreach(row={ %s }) ORDER BY _value"},
	{"group", "SELECT * FROM foreach(row={ %s }) GROUP BY _value"},
	{"enumerate", "LET D <= SELECT enumerate(items=dict(_value=_value, t=t)) AS e FROM foreach(row={ %s }) GROUP BY 1 SELECT * FROM foreach(row=D[0].e)"},
}

func genLarge(t *rapid.T) *largeCase {
	g := newG(t)
	c := &largeCase{N: []int{0, 1, 999, 1000, 1001, 9999, 10000, 10001, 10002, 12345}[g.n(0, 9)], Place: g.n(0, len(largePlaces)-1)}
	if g.chance(50) {
		c.N = g.n(10000, 11000)
	}
	return c
}

func checkLarge(r *R, c *largeCase) {
	p := largePlaces[c.Place]
	text := fmt.Sprintf(p.text, fmt.Sprintf("SELECT _value, track(id='t', v=_value) AS t FROM range(start=0, end=%d)", c.N))
	res, run, msg := runText(r.T, &Env{}, text)
	if msg != "" {
		r.Failf("%s\nprogram:\n%s", msg, text)
	}
	rows := res[len(res)-1]
	if len(rows) != c.N {
		r.Failf("%d rows became %d in %s\nprogram:\n%s", c.N, len(rows), p.name, text)
	}
	for i, row := range rows {
		want := newObj().Set("_value", int64(i)).Set("t", int64(i))
		if !same(want, row) {
			r.Failf("row %d is %s, expected %s, in %s\nprogram:\n%s", i, show(row), show(want), p.name, text)
		}
	}
	if n := run.Track.n["t"]; n != c.N {
		r.Failf("a column of %d rows was evaluated %d times, in %s\nprogram:\n%s", c.N, n, p.name, text)
	}
	r.Class(p.name)
	r.NonTrivialIf(c.N >= 1000)
}
