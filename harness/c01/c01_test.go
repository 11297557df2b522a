package c01

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
	"verifh/wm"
)

func TestCheck(t *testing.T) {
	vh.Main(t, "C01", func(h *vh.H) {
		h.Seq("big", h.N(12), big)
		h.Seq("sequential model", h.N(1500), model)
		h.Conc("concurrent model", h.N(60), stress)
		h.Conc("together", h.N(150), together)
		h.Conc("nested", h.N(40), nested)
		h.Conc("readers", h.N(25), readers)
		h.Seq("standalone", h.N(300), standalone)
	})
}

// model runs random histories of starts, finishes and resets.
func model(c *vh.C) {
	w := wm.New(c, wm.Checks{Counts: true, Resets: true, Observers: c.Idx%3 == 0, Reuse: true})
	n := 20 + c.Rng.Intn(60)
	for i := 0; i < n; i++ {
		w.Step()
	}
	w.Drain()
}

func stress(c *vh.C) {
	s := wm.NewStress(c, wm.Checks{Counts: true})
	s.Run(2+c.Rng.Intn(7), 5+c.Rng.Intn(25), c.Rng.Intn(4), 12)
	c.Logf("%v", s)
	c.Note("quiescent inspections", s.Inspections)
}

// together lets n calls be in progress at the same time: highwater must be
// exactly n however they raced, and stay when they leave.
func together(c *vh.C) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	m := &wm.FuncM{F: f, Name: "s.f", Errs: map[string]int64{}}
	base := context.Background()
	if c.Rng.Intn(2) == 0 {
		defer reg.ScopeNamed("s").FuncNamed("outer").Task(&base)(nil)
	}
	rounds := 1 + c.Rng.Intn(3)
	for round := 0; round < rounds; round++ {
		n := 1 + c.Rng.Intn(14)
		var in, out sync.WaitGroup
		gate, leave := make(chan struct{}), make(chan struct{})
		var mu sync.Mutex
		for i := 0; i < n; i++ {
			r := rand.New(rand.NewSource(c.Rng.Int63()))
			in.Add(1)
			out.Add(1)
			c.Go(func() {
				defer out.Done()
				<-gate
				ctx := base
				var err error
				kind := r.Intn(4)
				name := ""
				vh.Catch(func() {
					var exit func(*error)
					if r.Intn(4) == 0 {
						exit = f.Observe()
					} else {
						exit = f.Task(&ctx)
					}
					defer exit(&err)
					in.Done()
					<-leave
					switch kind {
					case 0:
					case 1:
						err, name = io.EOF, "EOF"
					case 2:
						err, name = errors.New("x"), "System Error"
					case 3:
						panic("p")
					}
				})
				mu.Lock()
				c.SigN(uint64(kind) + uint64(n)<<8)
				switch kind {
				case 0:
					m.Succ++
				case 3:
					m.Panics++
				default:
					m.Errs[name]++
				}
				mu.Unlock()
			})
		}
		close(gate)
		in.Wait()
		m.Current = int64(n)
		if m.High < m.Current {
			m.High = m.Current
		}
		mu.Lock()
		wm.CompareCounts(c, m)
		mu.Unlock()
		close(leave)
		out.Wait()
		m.Current = 0
		wm.CompareCounts(c, m)
		c.Events(2 * n)
		c.Logf("%d together, highwater %d", n, f.Highwater())
		if c.Rng.Intn(3) == 0 {
			f.Reset()
			*m = wm.FuncM{F: f, Name: m.Name, Errs: map[string]int64{}}
			wm.CompareCounts(c, m)
		}
	}
}

// nested runs ordinary recursive functions with deferred exits in which
// panics and errors travel up through several monitored calls.
func nested(c *vh.C) {
	reg := monkit.NewRegistry()
	const nf = 3
	var fs [nf]*monkit.Func
	var tally [nf]struct{ succ, errs, panics int64 }
	for i := range fs {
		fs[i] = reg.ScopeNamed("s").FuncNamed(fmt.Sprint("f", i))
	}
	if c.Rng.Intn(2) == 0 {
		reg.ObserveTraces(func(t *monkit.Trace) {})
	}
	var call func(r *rand.Rand, ctx context.Context, depth int) error
	call = func(r *rand.Rand, ctx context.Context, depth int) (err error) {
		i := r.Intn(nf)
		normal := false
		defer func() {
			// runs after the exit function below
			if !normal {
				atomic.AddInt64(&tally[i].panics, 1)
			} else if err != nil {
				atomic.AddInt64(&tally[i].errs, 1)
			} else {
				atomic.AddInt64(&tally[i].succ, 1)
			}
		}()
		if r.Intn(2) == 0 {
			defer fs[i].Task(&ctx, depth)(&err)
		} else {
			defer reg.ScopeNamed("s").TaskNamed(fmt.Sprint("f", i))(&ctx, depth)(&err)
		}
		if depth > 0 {
			for k := r.Intn(3); k >= 0; k-- {
				if r.Intn(4) == 0 {
					vh.Catch(func() { _ = call(r, ctx, depth-1) })
				} else if err := call(r, ctx, depth-1); err != nil && r.Intn(2) == 0 {
					normal = true
					return err
				}
			}
		}
		switch r.Intn(8) {
		case 0:
			panic(fmt.Sprint("boom", depth))
		case 1:
			var m map[int]int
			m[1] = 2
		case 2:
			normal = true
			return io.ErrUnexpectedEOF
		case 3:
			normal = true
			return fmt.Errorf("wrapped: %w", io.EOF)
		}
		normal = true
		return nil
	}
	n := 2 + c.Rng.Intn(6)
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(func() {
			for k := 0; k < 8; k++ {
				vh.Catch(func() { _ = call(r, context.Background(), 3) })
			}
		})
	}
	c.Wait()
	for i, f := range fs {
		errs := int64(0)
		for _, n := range f.Errors() {
			errs += n
		}
		t := &tally[i]
		if f.Success() != t.succ || errs != t.errs || f.Panics() != t.panics || f.Current() != 0 {
			c.Failf("%s: success %d errors %d panics %d current %d, want %+v and 0", f.ShortName(), f.Success(), errs, f.Panics(), f.Current(), *t)
		}
		if f.SuccessTimes().Count != t.succ || f.FailureTimes().Count != t.errs+t.panics {
			c.Failf("%s: %d success times and %d failure times, want %+v", f.ShortName(), f.SuccessTimes().Count, f.FailureTimes().Count, *t)
		}
		c.Events(int(t.succ + t.errs + t.panics))
		c.Sig(*t)
	}
	c.Logf("%v", tally)
}

// readers reads continuously while calls run: nothing is ever negative or
// decreases, and each readout adds up.
func readers(c *vh.C) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	var stop int32
	n := 1 + c.Rng.Intn(6)
	var rw sync.WaitGroup
	for g := 0; g < 2; g++ {
		rw.Add(1)
		c.Go(func() {
			defer rw.Done()
			last := map[string]float64{}
			for atomic.LoadInt32(&stop) == 0 && !c.Failed() {
				if cur := f.Current(); cur < 0 || cur > int64(n) {
					c.Failf("current is %d with %d goroutines", cur, n)
				}
				got := map[string]float64{}
				names := float64(0)
				f.Stats(func(key monkit.SeriesKey, field string, val float64) {
					if key.Measurement != "function" {
						field = key.Tags.Get("kind") + " " + field
					} else if key.Tags.Get("error_name") != "" {
						names += val
						return
					}
					got[field] = val
				})
				c.Events(1)
				if got["current"] < 0 || got["current"] > float64(n) || got["highwater"] > float64(n) {
					c.Failf("current %v highwater %v with %d goroutines", got["current"], got["highwater"], n)
				}
				if got["total"] != got["successes"]+got["errors"]+got["panics"] || got["failures"] != got["errors"]+got["panics"] || names != got["errors"] {
					c.Failf("readout does not add up: %v", got)
				}
				for _, k := range []string{"total", "successes", "errors", "panics", "failures", "highwater", "success count", "failure count"} {
					if got[k] < last[k] {
						c.Failf("%s went from %v back to %v", k, last[k], got[k])
					}
				}
				last = got
				runtime.Gosched()
			}
		})
	}
	var ww sync.WaitGroup
	var want [3]int64
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.Rng.Int63()))
		ww.Add(1)
		c.Go(func() {
			defer ww.Done()
			for i := 0; i < 150; i++ {
				k := r.Intn(3)
				ctx := context.Background()
				vh.Catch(func() {
					var err error
					defer f.Task(&ctx)(&err)
					switch k {
					case 1:
						err = io.EOF
					case 2:
						panic(1)
					}
				})
				atomic.AddInt64(&want[k], 1)
			}
		})
	}
	ww.Wait()
	atomic.StoreInt32(&stop, 1)
	rw.Wait()
	if f.Success() != want[0] || f.Errors()["EOF"] != want[1] || f.Panics() != want[2] {
		c.Failf("got %d %v %d, want %v", f.Success(), f.Errors(), f.Panics(), want)
	}
	c.Sig(want)
	c.Logf("%v", want)
}

// standalone uses FuncStats on their own.
func standalone(c *vh.C) {
	key := monkit.NewSeriesKey("function").WithTag("name", "x")
	f := monkit.NewFuncStats(key)
	var succ, errs, panics, cur, high int64
	var open []func(*error)
	for i := 0; i < 40; i++ {
		if len(open) == 0 || c.Rng.Intn(2) == 0 {
			open = append(open, f.Observe())
			cur++
			if cur > high {
				high = cur
			}
		} else {
			k := c.Rng.Intn(len(open))
			exit := open[k]
			open = append(open[:k], open[k+1:]...)
			cur--
			out := c.Rng.Intn(4)
			c.SigN(uint64(out*100 + k))
			vh.Catch(func() {
				var err error
				if out == 3 {
					defer exit(nil)
					return
				}
				defer exit(&err)
				switch out {
				case 1:
					err = io.EOF
				case 2:
					panic(1)
				}
			})
			switch out {
			case 1:
				errs++
			case 2:
				panics++
			default:
				succ++
			}
		}
		c.Events(1)
		if f.Current() != cur || f.Highwater() != high || f.Success() != succ || f.Errors()["EOF"] != errs || f.Panics() != panics {
			c.Fatalf("after %d operations: current %d highwater %d success %d errors %v panics %d, want %d %d %d %d %d", i+1,
				f.Current(), f.Highwater(), f.Success(), f.Errors(), f.Panics(), cur, high, succ, errs, panics)
		}
		if len(open) == 0 && c.Rng.Intn(4) == 0 {
			f.Reset()
			succ, errs, panics, cur, high = 0, 0, 0, 0, 0
		}
	}
	c.Logf("success %d errors %d panics %d highwater %d", succ, errs, panics, high)
}
