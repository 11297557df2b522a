package c05

import (
	"context"
	"time"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

type bigObs struct {
	n   int
	log *[]int
}

func (o bigObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	*o.log = append(*o.log, o.n)
	return ctx
}

func (o bigObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	*o.log = append(*o.log, -o.n)
}

// big has very many observers on one trace, of which some are cancelled, and
// very many spans.
func big(c *vh.C) {
	r := c.Rng
	trace := monkit.NewTrace(monkit.NewId())
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	n := vh.Many(r, 2000)
	var log []int
	cancels := make([]func(), n+1)
	var on []int
	for i := 1; i <= n; i++ {
		cancels[i] = trace.ObserveSpansCtx(bigObs{i, &log})
		on = append([]int{i}, on...)
	}
	for round := 0; round < 4; round++ {
		log = nil
		ctx := context.Background()
		f.RemoteTrace(&ctx, 1, trace)(nil)
		if len(log) != 2*len(on) {
			c.Fatalf("%d notifications for %d observers", len(log), len(on))
		}
		for i, o := range on {
			if log[i] != o || log[len(on)+i] != -o {
				c.Fatalf("notification %d of %d went to %d and %d, not to %d", i, len(on), log[i], log[len(on)+i], o)
			}
		}
		c.Events(len(log))
		var keep []int
		for _, o := range on {
			if r.Intn(3) == 0 {
				cancels[o]()
			} else {
				keep = append(keep, o)
			}
		}
		on = keep
	}
	for _, o := range on {
		cancels[o]()
	}
	// very many live spans
	m := vh.Many(r, 4000)
	log = nil
	defer trace.ObserveSpansCtx(bigObs{7, &log})()
	var ends []func(*error)
	ctx := context.Background()
	for i := 0; i < m; i++ {
		ends = append(ends, f.RemoteTrace(&ctx, 1, trace))
	}
	for _, e := range ends {
		e(nil)
	}
	if len(log) != 2*m {
		c.Fatalf("%d notifications of %d spans", len(log), m)
	}
	c.SigN(uint64(n)<<32 | uint64(m))
	c.Events(2 * m)
}
