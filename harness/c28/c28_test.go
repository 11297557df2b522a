package c28

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/vh"
	"verifh/wm"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C28", func(h *vh.H) {
		h.Seq("big", h.N(10), big)
		h.Seq("sequential model", h.N(1200), model)
		h.Conc("concurrent model", h.N(60), stress)
		h.Conc("first calls", h.N(600), firstCalls)
		h.Conc("readers", h.N(40), readers)
		h.Seq("rendered", h.N(200), rendered)
	})
}

func model(c *vh.C) {
	w := wm.New(c, wm.Checks{Parents: true, Counts: c.Idx%2 == 0, Resets: true, Reuse: true})
	n := 20 + c.Rng.Intn(60)
	for i := 0; i < n; i++ {
		w.Step()
	}
	w.Drain()
}

func stress(c *vh.C) {
	s := wm.NewStress(c, wm.Checks{Parents: true})
	s.Run(2+c.Rng.Intn(7), 5+c.Rng.Intn(25), 1+c.Rng.Intn(4), 12)
	c.Logf("%v", s)
}

func name(f *monkit.Func) string {
	if f == nil {
		return "entry"
	}
	return f.FullName()
}

func parents(c *vh.C, f *monkit.Func) map[*monkit.Func]bool {
	got := map[*monkit.Func]bool{}
	f.Parents(func(p *monkit.Func) {
		if got[p] {
			c.Failf("parent %s listed twice", name(p))
		}
		got[p] = true
	})
	return got
}

// caller is one of the callers; some differ only in their tags or scopes.
func caller(reg *monkit.Registry, i int) *monkit.Func {
	switch i % 4 {
	case 0:
		return reg.ScopeNamed("s").FuncNamed("p", monkit.NewSeriesTag("i", fmt.Sprint(i)))
	case 1:
		return reg.ScopeNamed("s.p").FuncNamed(fmt.Sprint("q", i/4))
	case 2:
		return reg.ScopeNamed("s").FuncNamed(fmt.Sprint("p.q", i/4))
	}
	return reg.ScopeNamed("s").FuncNamed(fmt.Sprint("p", i))
}

// firstCalls calls a function for the first time from several parents at once.
func firstCalls(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("target")
	if len(parents(c, f)) != 0 {
		c.Failf("a function that was never called has parents")
	}
	n := 2 + r.Intn(8)
	np := 1 + r.Intn(5)
	want := map[*monkit.Func]bool{}
	type call struct {
		ctx  context.Context
		mode int
	}
	gate := make(chan struct{})
	for g := 0; g < n; g++ {
		x := call{ctx: context.Background(), mode: r.Intn(6)}
		var p *monkit.Func
		if k := r.Intn(np + 1); k > 0 {
			p = caller(reg, k)
			defer p.Task(&x.ctx)(nil)
			if r.Intn(8) == 0 {
				p = f
				x.ctx = context.Background()
				defer f.Task(&x.ctx)(nil)
				want[nil] = true
			}
		}
		if x.mode == 0 || x.mode == 1 || x.mode == 2 {
			p = nil
		}
		want[p] = true
		c.SigN(uint64(x.mode))
		c.Go(func() {
			ctx := x.ctx
			<-gate
			switch x.mode {
			case 0:
				f.ResetTrace(&ctx)(nil)
			case 1:
				f.RemoteTrace(&ctx, 3, monkit.NewTrace(4))(nil)
			case 2:
				f.Observe()(nil)
			default:
				f.Task(&ctx)(nil)
			}
		})
	}
	close(gate)
	c.Wait()
	got := parents(c, f)
	for p := range got {
		if !want[p] {
			c.Failf("invented parent %s", name(p))
		}
	}
	for p := range want {
		if !got[p] {
			c.Failf("lost parent %s of %d", name(p), len(want))
		}
	}
	c.Events(n)
	c.Sig(len(want), n)
	c.Logf("%d callers, %d parents", n, len(want))
}

// readers lists parents while new ones are added.
func readers(c *vh.C) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("target")
	const np = 12
	var ps [np]*monkit.Func
	idx := map[*monkit.Func]int{}
	var before, after [np]int32
	for i := range ps {
		if i > 0 {
			ps[i] = caller(reg, i)
		}
		idx[ps[i]] = i
	}
	var stop int32
	var rd, wr sync.WaitGroup
	rd.Add(1)
	c.Go(func() {
		defer rd.Done()
		for atomic.LoadInt32(&stop) == 0 && !c.Failed() {
			var done [np]bool
			for i := range done {
				done[i] = atomic.LoadInt32(&after[i]) != 0
			}
			got := parents(c, f)
			for p := range got {
				i, ok := idx[p]
				if !ok || atomic.LoadInt32(&before[i]) == 0 {
					c.Failf("parent %s listed before it called", name(p))
				}
			}
			for i, d := range done {
				if d && !got[ps[i]] {
					c.Failf("parent %s is lost", name(ps[i]))
				}
			}
			c.Events(1)
			runtime.Gosched()
		}
	})
	for g := 0; g < 4; g++ {
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		wr.Add(1)
		c.Go(func() {
			defer wr.Done()
			for k := 0; k < 30; k++ {
				i := r.Intn(np)
				ctx := context.Background()
				func() {
					if i > 0 {
						defer ps[i].Task(&ctx)(nil)
					}
					atomic.StoreInt32(&before[i], 1)
					e := f.Task(&ctx)
					atomic.StoreInt32(&after[i], 1)
					e(nil)
				}()
			}
		})
	}
	wr.Wait()
	atomic.StoreInt32(&stop, 1)
	rd.Wait()
	c.Sig(c.Idx)
	c.Logf("%d parents", len(parents(c, f)))
}

// rendered compares the call graph in the JSON rendering with the calls made.
func rendered(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	var fs []*monkit.Func
	for i := 1 + r.Intn(5); i >= 0; i-- {
		fs = append(fs, caller(reg, i))
	}
	want := map[int64]map[int64]bool{}
	entry := map[int64]bool{}
	for _, f := range fs {
		want[f.Id()] = map[int64]bool{}
	}
	for i := r.Intn(12); i > 0; i-- {
		ctx := context.Background()
		var last *monkit.Func
		for d := 1 + r.Intn(4); d > 0; d-- {
			f := fs[r.Intn(len(fs))]
			defer f.Task(&ctx)(nil)
			if last == nil {
				entry[f.Id()] = true
			} else {
				want[f.Id()][last.Id()] = true
			}
			last = f
		}
	}
	var buf bytes.Buffer
	if err := present.FuncsJSON(reg, &buf); err != nil {
		c.Fatalf("%v", err)
	}
	var out []struct {
		Id        int64   `json:"id"`
		ParentIds []int64 `json:"parent_ids"`
		Entry     bool    `json:"entry"`
	}
	if err := json.Unmarshal(buf.Bytes(), &out); err != nil {
		c.Fatalf("%v", err)
	}
	for _, o := range out {
		got := map[int64]bool{}
		for _, p := range o.ParentIds {
			got[p] = true
		}
		if len(got) != len(o.ParentIds) || fmt.Sprint(got) != fmt.Sprint(want[o.Id]) || o.Entry != entry[o.Id] {
			c.Failf("function %d: parents %v entry %v, want %v %v", o.Id, o.ParentIds, o.Entry, want[o.Id], entry[o.Id])
		}
		c.Sig(len(got), o.Entry)
	}
	if len(out) != len(fs) {
		c.Failf("%d functions rendered, want %d", len(out), len(fs))
	}
	c.Events(len(out))
	c.Logf("%d functions", len(fs))
}
