// Package c26 watches which names errors are counted under.
package c26

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"net/url"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"

	"verifh/vh"
)

// record is which handlers an error was shown to.
type record struct {
	mtx  sync.Mutex
	seen []int64
	self int // times its own method was called
	errs []error
}

func (r *record) add(id int64, err error) {
	r.mtx.Lock()
	r.seen = append(r.seen, id)
	r.errs = append(r.errs, err)
	r.mtx.Unlock()
}

type recorder interface{ record() *record }

// plain is an error that knows who looked at it.
type plain struct {
	rec *record
	// claim tells which handlers claim it, under which name
	claim map[int64]string
}

func (e *plain) Error() string   { return "plain" }
func (e *plain) record() *record { return e.rec }

type named struct {
	plain
	name string
	ok   bool
}

func (e *named) Name() (string, bool) {
	e.rec.mtx.Lock()
	e.rec.self++
	e.rec.mtx.Unlock()
	return e.name, e.ok
}

// otherName has a method of that name with other results.
type otherName struct{ plain }

func (e *otherName) Name() string { return "never" }

type netErr struct{ plain }

func (e *netErr) Timeout() bool   { return true }
func (e *netErr) Temporary() bool { return true }

type namedNet struct{ named }

func (e *namedNet) Timeout() bool   { return true }
func (e *namedNet) Temporary() bool { return true }

type timeoutOnly struct{ plain }

func (e *timeoutOnly) Timeout() bool { return true }

type wrapped struct {
	plain
	err error
}

func (e *wrapped) Unwrap() error        { return e.err }
func (e *wrapped) Is(target error) bool { return true }

// slice can't be compared.
type slice []string

func (slice) Error() string { return "slice" }

type hasMap struct{ m map[string]int }

func (hasMap) Error() string { return "has map" }

type structErr struct{ a, b int }

func (structErr) Error() string { return "struct" }

type namedValue string

func (n namedValue) Error() string        { return "x" }
func (n namedValue) Name() (string, bool) { return string(n), n != "" }

type nilNamer struct{}

func (*nilNamer) Error() string        { return "nil" }
func (*nilNamer) Name() (string, bool) { return "Nil", true }

// known are errors with what they're called when no handler claims them.
var known = []struct {
	err  error
	name string
}{
	{io.EOF, "EOF"},
	{io.ErrUnexpectedEOF, "Unexpected EOF Error"},
	{io.ErrClosedPipe, "Closed Pipe Error"},
	{io.ErrNoProgress, "No Progress Error"},
	{io.ErrShortBuffer, "Short Buffer Error"},
	{io.ErrShortWrite, "Short Write Error"},
	{context.Canceled, "Canceled"},
	{context.DeadlineExceeded, "Timeout"},
	{syscall.ENOENT, errnoName},
	{syscall.Errno(0), errnoName},
	{syscall.EAGAIN, errnoName},
	{net.UnknownNetworkError("x"), unknownNetName},
	{&net.AddrError{Err: "x"}, "Addr Error"},
	{net.InvalidAddrError("x"), invalidName},
	{&net.OpError{Op: "x", Err: io.EOF}, "Net Op Error"},
	{&net.OpError{Op: "x", Err: &net.DNSError{}}, "Net Op Error"},
	{&net.ParseError{Type: "x"}, "Net Parse Error"},
	{&net.DNSError{Err: "x"}, dnsName},
	{&net.DNSConfigError{Err: io.EOF}, dnsConfigName},
	{&url.Error{Op: "x", Err: io.EOF}, "Network Error"},
	{&os.SyscallError{Syscall: "x", Err: syscall.ENOENT}, "System Error"},
	{os.NewSyscallError("x", syscall.EAGAIN), "System Error"},
	{os.ErrNotExist, "System Error"},
	{&fs.PathError{Op: "x", Err: syscall.ENOENT}, "System Error"},
	{net.ErrClosed, "Network Error"},
	{(*net.OpError)(nil), "Net Op Error"},
	{(*net.DNSError)(nil), dnsName},
	{(*os.SyscallError)(nil), "System Error"},
	{errors.New("EOF"), "System Error"},
	{fmt.Errorf("a: %w", io.EOF), "System Error"},
	{errors.Join(io.EOF, context.Canceled), "System Error"},
	{slice{"a"}, "System Error"},
	{slice(nil), "System Error"},
	{hasMap{map[string]int{}}, "System Error"},
	{structErr{1, 2}, "System Error"},
	{&structErr{1, 2}, "System Error"},
	{namedValue("Mine"), "Mine"},
	{namedValue(""), "System Error"},
	{(*nilNamer)(nil), "Nil"},
	{net.Error(&netErr{}), "Network Error"},
}

// the handlers that were added, all of them recording
var (
	nHandlers atomic.Int64
	// behave is what handlers do in serial scenarios.
	behave atomic.Pointer[func(id int64, err error) (string, bool)]
)

func add() int64 {
	id := nHandlers.Add(1)
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if f := behave.Load(); f != nil {
			return (*f)(id, err)
		}
		if r, ok := err.(recorder); ok && r.record() != nil {
			r.record().add(id, err)
			var claim map[int64]string
			switch e := err.(type) {
			case *plain:
				claim = e.claim
			case *named:
				claim = e.claim
			case *netErr:
				claim = e.claim
			}
			if name, ok := claim[id]; ok {
				return name, true
			}
		}
		return "not this", false
	})
	return id
}

var names = []string{"A", "B", "EOF", "System Error", "", "name with space", "x,y=z", "Ünïcode", "Timeout"}

// exit ends a call in one of many forms; err may be nil.
func doCall(r *rand.Rand, f *monkit.Func, err error, form int, boom interface{}) (rec interface{}, panicked bool) {
	return vh.Catch(func() {
		ctx := context.Background()
		switch form % 6 {
		case 0:
			defer f.Task(&ctx)(&err)
		case 1:
			defer f.Observe()(&err)
		case 2:
			defer f.ResetTrace(&ctx)(&err)
		case 3:
			defer f.RemoteTrace(&ctx, 1, monkit.NewTrace(2))(&err)
		case 4:
			defer f.Task(nil)(&err)
		case 5:
			outer := f.Scope().FuncNamed("outer").Task(&ctx)
			defer outer(nil)
			defer f.Task(&ctx)(&err)
		}
		if boom != nil {
			panic(boom)
		}
	})
}

var forms = []string{"Task", "Observe", "ResetTrace", "RemoteTrace", "Task without context", "nested Task"}

func tagged(f *monkit.Func) map[string]int64 {
	out := map[string]int64{}
	f.Stats(func(k monkit.SeriesKey, field string, v float64) {
		if field == "count" {
			if e, ok := k.Tags.All()["error_name"]; ok {
				out[e] += int64(v)
			}
		}
	})
	return out
}

// history checks single calls one after another, with all handlers behaving
// differently in each case.
func history(c *vh.C) {
	r := c.Rng
	type look struct {
		id  int64
		err error
	}
	var looks []look
	seed := r.Int63()
	var per int64 = 1 + int64(r.Intn(4))
	var on atomic.Bool
	on.Store(true)
	decide := func(id int64, k int64) (string, bool) {
		y := uint64(seed) + uint64(id)*0x9e3779b97f4a7c15 + uint64(k)*0xd1b54a32d192ed03
		y = (y ^ y>>30) * 0xbf58476d1ce4e5b9
		y = (y ^ y>>27) * 0x94d049bb133111eb
		x := int64((y ^ y>>31) >> 1)
		name := names[x%int64(len(names))]
		if per == 4 {
			return name, false
		}
		return name, (x>>20)%(per*4) == 0
	}
	var step int64
	f := func(id int64, err error) (string, bool) {
		looks = append(looks, look{id, err})
		if !on.Load() {
			return "off", false
		}
		return decide(id, step)
	}
	behave.Store(&f)
	defer behave.Store(nil)
	reg := monkit.NewRegistry()
	var fns []*monkit.Func
	model := map[*monkit.Func]map[string]int64{}
	panics := map[*monkit.Func]int64{}
	for i := 0; i < 3; i++ {
		fn := reg.ScopeNamed(fmt.Sprint("s", i%2)).FuncNamed(fmt.Sprint("f", i))
		fns = append(fns, fn)
		model[fn] = map[string]int64{}
	}
	for i := 3 + r.Intn(25); i > 0; i-- {
		step++
		if r.Intn(8) == 0 && nHandlers.Load() < 60 {
			c.Logf("add handler %d", add())
			c.Sig("add")
			continue
		}
		fn := fns[r.Intn(len(fns))]
		looks = nil
		form := r.Intn(6)
		var err error
		want := ""
		var boom interface{}
		rec := &record{}
		kind := r.Intn(10)
		switch kind {
		case 0: // success
		case 1: // panic, also with an error set
			boom = "boom"
			if r.Intn(2) == 0 {
				err = known[r.Intn(len(known))].err
			}
			if r.Intn(3) == 0 {
				boom = io.EOF
			}
		case 2:
			n := &named{plain{rec: rec}, names[r.Intn(len(names))], r.Intn(3) > 0}
			err, want = n, n.name
			if !n.ok {
				want = "System Error"
			}
		case 3:
			n := &namedNet{named{plain{rec: rec}, names[r.Intn(len(names))], r.Intn(3) > 0}}
			err, want = n, n.name
			if !n.ok {
				want = "Network Error"
			}
		case 4:
			k := r.Intn(4)
			err = []error{&otherName{}, &timeoutOnly{}, &wrapped{err: io.EOF}, &wrapped{err: &net.OpError{}}}[k]
			want = "System Error"
		default:
			k := known[r.Intn(len(known))]
			err, want = k.err, k.name
		}
		n := nHandlers.Load()
		consulted := int64(0)
		if kind > 1 {
			consulted = n
			for id := n; id > 0; id-- {
				if name, ok := decide(id, step); ok {
					want = name
					consulted = n - id + 1
					break
				}
			}
			model[fn][want]++
		}
		if boom != nil {
			panics[fn]++
		}
		c.Logf("%s of %s with %T %v, panic %v: want %q after %d handlers", forms[form], fn.FullName(), err, kind, boom, want, consulted)
		c.Sig(kind, form, fmt.Sprintf("%T", err), want, consulted)
		_, p := doCall(r, fn, err, form, boom)
		if p != (boom != nil) {
			c.Fatalf("panicked: %v", p)
		}
		if int64(len(looks)) != consulted {
			c.Fatalf("%d handlers were consulted, not %d", len(looks), consulted)
		}
		for j, l := range looks {
			if l.id != n-int64(j) {
				c.Fatalf("handler %d was consulted as number %d of %d", l.id, j, n)
			}
			if !same(l.err, err) {
				c.Fatalf("handler %d was shown %v, not %v", l.id, l.err, err)
			}
		}
		if kind == 2 || kind == 3 {
			wantSelf := 1
			if consulted > 0 && consulted < n {
				wantSelf = 0
			}
			if consulted == n && n > 0 {
				if _, ok := decide(1, step); ok {
					wantSelf = 0
				}
			}
			if rec.self != wantSelf {
				c.Fatalf("the error's own method was called %d times, not %d", rec.self, wantSelf)
			}
		}
		for _, fn := range fns {
			compare(c, fn, model[fn], panics[fn])
		}
		c.Events(1 + len(looks))
	}
}

func same(a, b error) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = true // incomparable, of the same type
		}
	}()
	return a == b
}

func compare(c *vh.C, fn *monkit.Func, want map[string]int64, panics int64) {
	got := fn.Errors()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("%s: errors are counted as %v, not %v", fn.FullName(), got, want)
	}
	if t := tagged(fn); fmt.Sprint(t) != fmt.Sprint(want) {
		c.Fatalf("%s: errors are reported as %v, not %v", fn.FullName(), t, want)
	}
	if fn.Panics() != panics {
		c.Fatalf("%s: %d panics are counted as %d", fn.FullName(), panics, fn.Panics())
	}
}

// racing adds handlers while calls fail.
func racing(c *vh.C) {
	r := c.Rng
	type call struct {
		err        error
		rec        *record
		claim      map[int64]string
		from, till int64 // handlers that surely, possibly were there
		self       string
		begin, end int64
	}
	reg := monkit.NewRegistry()
	var clock atomic.Int64
	var calls []*call
	var mtx sync.Mutex
	type reg1 struct{ id, begin, end int64 }
	var regs []reg1
	base := nHandlers.Load()
	start := make(chan struct{})
	room := 700 - base
	adders := 1 + r.Intn(3)
	for g := 0; g < adders; g++ {
		n := r.Intn(5)
		if room < 20 {
			n = 0
			if g == 0 && room > 0 {
				n = 1
			}
		}
		c.Go(func() {
			<-start
			for i := 0; i < n; i++ {
				b := clock.Add(1)
				id := add()
				e := clock.Add(1)
				mtx.Lock()
				regs = append(regs, reg1{id, b, e})
				mtx.Unlock()
			}
		})
	}
	shared := reg.ScopeNamed("s").FuncNamed("shared")
	workers := 2 + r.Intn(4)
	var fns []*monkit.Func
	perFn := make([][]*call, workers)
	for g := 0; g < workers; g++ {
		g := g
		fn := reg.ScopeNamed("s").FuncNamed(fmt.Sprint("f", g))
		if g%3 == 2 {
			fn = shared
		}
		fns = append(fns, fn)
		seed := r.Int63()
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			<-start
			for i := 0; i < 8; i++ {
				cl := &call{rec: &record{}, claim: map[int64]string{}}
				if r.Intn(3) > 0 {
					for j := 0; j < 3; j++ {
						cl.claim[1+r.Int63n(base+12)] = names[r.Intn(len(names))]
					}
				}
				p := plain{rec: cl.rec, claim: cl.claim}
				switch r.Intn(3) {
				case 0:
					cl.err, cl.self = &p, "System Error"
				case 1:
					cl.err, cl.self = &named{p, "Self", true}, "Self"
				case 2:
					cl.err, cl.self = &netErr{p}, "Network Error"
				}
				cl.begin = clock.Add(1)
				doCall(r, fn, cl.err, r.Intn(6), nil)
				cl.end = clock.Add(1)
				perFn[g] = append(perFn[g], cl)
				mtx.Lock()
				calls = append(calls, cl)
				mtx.Unlock()
			}
		})
	}
	close(start)
	c.Wait()
	if c.Failed() {
		return
	}
	// the order the handlers have in the end
	last := &plain{rec: &record{}}
	fin := reg.ScopeNamed("s").FuncNamed("last")
	doCall(r, fin, last, 0, nil)
	order := append([]int64(nil), last.rec.seen...)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	if int64(len(order)) != nHandlers.Load() {
		c.Fatalf("%d of %d handlers were consulted in the end", len(order), nHandlers.Load())
	}
	pos := map[int64]int{}
	for i, id := range order {
		if _, ok := pos[id]; ok {
			c.Fatalf("handler %d is consulted twice", id)
		}
		pos[id] = i
	}
	for _, a := range regs {
		for _, b := range regs {
			if a.end < b.begin && pos[a.id] > pos[b.id] {
				c.Fatalf("handler %d was added before %d but is consulted earlier", a.id, b.id)
			}
		}
	}
	c.Events(len(calls) + len(regs))
	predicted := map[*monkit.Func]map[string]int64{}
	for g, list := range perFn {
		fn := fns[g]
		if predicted[fn] == nil {
			predicted[fn] = map[string]int64{}
		}
		for _, cl := range list {
			seen := cl.rec.seen
			c.Logf("%s %T saw %d handlers", fn.FullName(), cl.err, len(seen))
			// what was there when the call began was there for it
			must := 0
			for i, id := range order {
				there := true
				for _, rg := range regs {
					if rg.id == id && rg.end > cl.begin {
						there = false
					}
				}
				if there && i+1 > must {
					must = i + 1
				}
			}
			if len(seen) == 0 {
				if must > 0 {
					c.Fatalf("no handler was consulted though %d were there", must)
				}
				predicted[fn][cl.self]++
				continue
			}
			top := pos[seen[0]]
			if top+1 < must {
				c.Fatalf("handlers were consulted from number %d on, but number %d was there before the call", top+1, must)
			}
			for _, rg := range regs {
				if rg.begin > cl.end && pos[rg.id] <= top {
					c.Fatalf("handler %d was consulted before it was added", rg.id)
				}
			}
			c.SigN(uint64(top-int(base))<<8 | uint64(len(seen)))
			name, claimed := "", false
			for j, id := range seen {
				if pos[id] != top-j {
					c.Fatalf("handlers %v were consulted, the order is %v", seen, order)
				}
				if claimed {
					c.Fatalf("handler %d was consulted after another claimed the error", id)
				}
				if cl.rec.errs[j] != cl.err {
					c.Fatalf("handler %d was shown another error", id)
				}
				name, claimed = cl.claim[id]
			}
			if !claimed && len(seen) != top+1 {
				c.Fatalf("%d handlers of %d were consulted though none claimed the error", len(seen), top+1)
			}
			if !claimed {
				name = cl.self
			}
			predicted[fn][name]++
		}
	}
	var list []*monkit.Func
	for fn := range predicted {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].Id() < list[j].Id() })
	for _, fn := range list {
		compare(c, fn, predicted[fn], 0)
	}
}

// all names every known error in a process that has no handlers yet.
func all(c *vh.C) {
	k := known[c.Idx%len(known)]
	form := c.Idx / len(known)
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	doCall(c.Rng, f, k.err, form, nil)
	c.Logf("%s with %T", forms[form%6], k.err)
	compare(c, f, map[string]int64{k.name: 1}, 0)
	doCall(c.Rng, f, k.err, form, "boom")
	doCall(c.Rng, f, nil, form, nil)
	compare(c, f, map[string]int64{k.name: 1}, 1)
	c.Sig(k.name, fmt.Sprintf("%T", k.err), form)
	c.Events(3)
}

func TestCheck(t *testing.T) {
	vh.Main(t, "C26", func(h *vh.H) {
		h.Seq("all", 6*len(known), all)
		h.Serial("history", h.N(1500), history)
		h.Conc("racing", h.N(200), racing)
	})
}
