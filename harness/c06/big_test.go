package c06

import (
	"context"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"

	"verifh/vh"
)

type bigObs struct{ starts, ends map[*monkit.Span]int }

func (o bigObs) Start(s *monkit.Span) { o.starts[s]++ }
func (o bigObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.ends[s]++
}

// big has very many watchers, and very many traces when all are observed.
func big(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	n := vh.Many(r, 1000)
	told := make([]int, n)
	cancels := make([]func(), n)
	want := make([]int, n)
	off := make([]bool, n)
	for i := range told {
		i := i
		cancels[i] = reg.ObserveTraces(func(*monkit.Trace) { told[i]++ })
	}
	for round := 0; round < 4; round++ {
		f.Task(nil)(nil)
		for i := range told {
			if !off[i] {
				want[i]++
			}
			if told[i] != want[i] {
				c.Fatalf("watcher %d of %d was told of %d traces, want %d", i, n, told[i], want[i])
			}
			if r.Intn(3) == 0 {
				cancels[i]()
				off[i] = true
			}
		}
		c.Events(n)
	}
	for i := range cancels {
		cancels[i]()
	}
	// traces that are live when all are observed, and those that begin later
	m := vh.Many(r, 3000)
	var ends []func(*error)
	var spans []*monkit.Span
	start := func() {
		ctx := context.Background()
		ends = append(ends, f.Task(&ctx))
		spans = append(spans, monkit.SpanFromCtx(ctx))
	}
	for i := 0; i < m; i++ {
		start()
	}
	o := bigObs{map[*monkit.Span]int{}, map[*monkit.Span]int{}}
	cancel := collect.ObserveAllTraces(reg, o)
	for i := 0; i < m; i++ {
		start()
	}
	for i, s := range spans {
		k := 0
		if i >= m {
			k = 1
		}
		if o.starts[s] != k {
			c.Fatalf("%d starts of span %d, %d traces were live before", o.starts[s], i, m)
		}
	}
	stop := m / 2
	for i, e := range ends {
		if i == m+stop {
			cancel()
		}
		e(nil)
	}
	for i, s := range spans {
		k := 1
		if i >= m+stop {
			k = 0
		}
		if o.ends[s] != k {
			c.Fatalf("%d finishes of span %d, %d traces were live before", o.ends[s], i, m)
		}
	}
	c.SigN(uint64(n)<<32 | uint64(m))
	c.Events(4 * m)
}
