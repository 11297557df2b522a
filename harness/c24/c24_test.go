package c24

import (
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/ops"
	"verifh/vh"
)

// drive lets goroutines do random things from a part of the ops.Menu.
func drive(c *vh.C, list []ops.Op, workers, each int) {
	w := ops.NewWorld(c)
	start := make(chan struct{})
	var trail [16]uint64
	var pos atomic.Int64
	var mtx sync.Mutex
	for g := 0; g < workers; g++ {
		seed := c.Rng.Int63()
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			<-start
			for i := 0; i < each; i++ {
				k := r.Intn(len(list))
				if p := pos.Add(1); p%7 == 0 && p/7 < 16 {
					mtx.Lock()
					trail[p/7] = uint64(k + 1)
					mtx.Unlock()
				}
				list[k].Do(w, r)
				c.Events(1)
			}
		})
	}
	close(start)
	c.Wait()
	w.Close()
	if c.Failed() {
		return
	}
	if got := w.Counter.Current(); got != w.Counted.Load() {
		c.Failf("counter at %d after increments of %d", got, w.Counted.Load())
	}
	f := w.Fn
	total := f.Success() + f.Panics()
	for _, n := range f.Errors() {
		total += n
	}
	if total != w.Calls.Load() || f.Current() != 0 {
		c.Failf("%d calls counted as %d, %d still current", w.Calls.Load(), total, f.Current())
	}
	if f.SuccessTimes().Count != f.Success() || f.FailureTimes().Count != total-f.Success() {
		c.Failf("%d and %d times for %d calls", f.SuccessTimes().Count, f.FailureTimes().Count, total)
	}
	live := 0
	w.Reg.AllSpans(func(s *monkit.Span) { live++ })
	if live != 0 {
		c.Failf("%d spans live at the end", live)
	}
	for _, o := range list {
		c.Sig(o.Name)
	}
	for _, x := range trail {
		c.SigN(x)
	}
}

// mix uses everything.
func mix(c *vh.C) {
	list := append([]ops.Op(nil), ops.Menu...)
	drive(c, list, 2+c.Rng.Intn(10), 30+c.Rng.Intn(60))
}

// focus has a few kinds of operations collide often.
func focus(c *vh.C) {
	n := 2 + c.Rng.Intn(2)
	var list []ops.Op
	var names []string
	for _, k := range c.Rng.Perm(len(ops.Menu))[:n] {
		list = append(list, ops.Menu[k])
		names = append(names, ops.Menu[k].Name)
	}
	sort.Strings(names)
	c.Logf("%s", strings.Join(names, " + "))
	drive(c, list, 2+c.Rng.Intn(4), 20)
}

// single has one kind of operation collide with itself.
func single(c *vh.C) {
	k := c.Idx % len(ops.Menu)
	c.Logf("%s", ops.Menu[k].Name)
	drive(c, ops.Menu[k:k+1], 4+c.Rng.Intn(4), 30)
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C24")
	h.Conc("single", h.N(3*len(ops.Menu)), single)
	h.Conc("focus", h.N(400), focus)
	h.ConcPar("mix", h.N(40), mix)
	h.Finish()
}
