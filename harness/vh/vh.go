// Package vh is the common part of all checks: it runs generated cases,
// records what they covered and what they found, and watches for hangs.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Violation is one observed breach of the property.
type Violation struct {
	Scenario string   `json:"scenario"`
	Case     int      `json:"case"`
	Known    string   `json:"known,omitempty"`
	Message  string   `json:"message"`
	Log      []string `json:"log,omitempty"`
}

type scenarioStats struct {
	Cases  int64 `json:"cases"`
	Events int64 `json:"events"`
	hashes map[uint64]struct{}
}

// H is one run of one check's binary.
type H struct {
	ID   string
	Mode string
	T    *testing.T

	seed     int64
	thorough bool
	only     string
	onlyCase int
	out      string

	mtx        sync.Mutex
	scenarios  map[string]*scenarioStats
	samples    map[string][]string
	violations []Violation
	known      map[string]bool
	notes      map[string]int64
	current    string
	began      map[string]float64

	beats  atomic.Int64
	start  time.Time
	frozen bool
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// New starts a run.
func New(t *testing.T, id string) *H {
	h := &H{
		ID: id, T: t,
		Mode:      os.Getenv("VH_MODE"),
		seed:      envInt("VERIF_SEED", 1) + 1000003*envInt("VH_SEEDOFF", 0),
		thorough:  os.Getenv("VERIF_TIER") == "thorough",
		out:       os.Getenv("VH_OUT"),
		onlyCase:  -1,
		scenarios: map[string]*scenarioStats{},
		samples:   map[string][]string{},
		known:     map[string]bool{},
		notes:     map[string]int64{},
		began:     map[string]float64{},
		start:     time.Now(),
	}
	if h.Mode == "" {
		h.Mode = "par"
	}
	if only := os.Getenv("VH_ONLY"); only != "" {
		i := strings.LastIndexByte(only, ':')
		if i < 0 {
			h.only = only
		} else {
			h.only = only[:i]
			n, err := strconv.Atoi(only[i+1:])
			if err == nil {
				h.onlyCase = n
			}
		}
	}
	go h.watchdog()
	return h
}

// Par tells whether this is the mode without injected yields, in which also
// the sequential cases run.
func (h *H) Par() bool { return h.Mode == "par" }

// Thorough tells whether the thorough tier was asked for.
func (h *H) Thorough() bool { return h.thorough }

// Seed is the seed given by the environment.
func (h *H) Seed() int64 { return h.seed }

// N returns the number of cases for this tier.
func (h *H) N(quick int) int {
	scale := envInt("VH_SCALE", 100)
	n := int(int64(quick) * scale / 100)
	if h.thorough {
		n *= int(envInt("VH_MULT", 20))
	}
	if n < 1 {
		n = 1
	}
	return n
}

func (h *H) watchdog() {
	limit := time.Duration(envInt("VH_HANG_SECONDS", 75)) * time.Second
	last, at := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		if b := h.beats.Load(); b != last {
			last, at = b, time.Now()
			continue
		}
		if time.Since(at) > limit {
			buf := make([]byte, 16<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if h.out != "" {
				_ = os.WriteFile(h.out+".hang", buf, 0o644)
			} else {
				os.Stderr.Write(buf)
			}
			h.write()
			os.Exit(66)
		}
	}
}

// Beat tells the watchdog that there is progress.
func (h *H) Beat() { h.beats.Add(1) }

// Note adds to a named measurement that ends up in the evidence.
func (h *H) Note(name string, n int64) {
	h.mtx.Lock()
	h.notes[name] += n
	h.mtx.Unlock()
}

// NoteMax keeps the maximum of a named measurement.
func (h *H) NoteMax(name string, n int64) {
	h.mtx.Lock()
	if h.notes[name] < n {
		h.notes[name] = n
	}
	h.mtx.Unlock()
}

// C is one case.
type C struct {
	*H
	Name string
	Idx  int
	Rng  *rand.Rand

	mtx    sync.Mutex
	sig    uint64
	log    []string
	events atomic.Int64
	failed bool
	wg     sync.WaitGroup
}

type stopCase struct{}

func hash(parts ...interface{}) uint64 {
	f := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(f, "%v\x00", p)
	}
	return f.Sum64()
}

func (h *H) newCase(name string, idx int) *C {
	return &C{H: h, Name: name, Idx: idx,
		Rng: rand.New(rand.NewSource(int64(hash(h.seed+h.seedOff(), h.ID, name, idx) >> 1)))}
}

func (h *H) seedOff() int64 {
	if h.frozen {
		return 7777777
	}
	return 0
}

func (h *H) stopped() bool {
	h.mtx.Lock()
	defer h.mtx.Unlock()
	return len(h.violations) >= 8
}

// Seq runs cases that don't depend on the schedule, in parallel with each
// other, and only in the mode without yields.
func (h *H) Seq(name string, n int, f func(c *C)) {
	if h.Par() {
		h.run(name, n, runtime.GOMAXPROCS(0), f)
	}
}

// Serial is like Seq but for cases that can't run in parallel with others.
func (h *H) Serial(name string, n int, f func(c *C)) {
	if h.Par() {
		h.run(name, n, 1, f)
	}
}

// Conc runs cases that are concurrent themselves, one after the other, in all
// modes.
func (h *H) Conc(name string, n int, f func(c *C)) {
	if h.frozen {
		return
	}
	h.run(name, n, 1, f)
}

// ConcPar is like Conc but runs cases in parallel with each other as well.
func (h *H) ConcPar(name string, n int, f func(c *C)) {
	if h.frozen {
		return
	}
	h.run(name, n, 4, f)
}

func (h *H) run(name string, n, workers int, f func(c *C)) {
	if h.only != "" && h.only != name {
		return
	}
	h.mtx.Lock()
	if h.scenarios[name] == nil {
		h.scenarios[name] = &scenarioStats{hashes: map[uint64]struct{}{}}
	}
	h.mtx.Unlock()
	t0 := time.Now()
	if h.onlyCase >= 0 {
		reps := int(envInt("VH_REPS", 1))
		for i := 0; i < reps; i++ {
			h.one(name, h.onlyCase, f)
		}
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || h.stopped() {
					return
				}
				h.one(name, i, f)
			}
		}()
	}
	wg.Wait()
	h.mtx.Lock()
	h.began[name] += time.Since(t0).Seconds()
	h.mtx.Unlock()
}

func (h *H) one(name string, idx int, f func(c *C)) {
	c := h.newCase(name, idx)
	func() {
		defer c.catch()
		f(c)
	}()
	c.wg.Wait()
	h.finish(c)
}

func (h *H) finish(c *C) {
	h.mtx.Lock()
	st := h.scenarios[c.Name]
	if st == nil {
		st = &scenarioStats{hashes: map[uint64]struct{}{}}
		h.scenarios[c.Name] = st
	}
	st.Cases++
	st.Events += c.events.Load()
	if c.sig != 0 && len(st.hashes) < 200000 {
		st.hashes[c.sig] = struct{}{}
	}
	if len(h.samples[c.Name]) < 1 && len(c.log) > 0 {
		l := c.log
		if len(l) > 25 {
			l = l[:25]
		}
		s := fmt.Sprintf("%s case %d: %s", c.Name, c.Idx, strings.Join(l, "; "))
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		h.samples[c.Name] = append(h.samples[c.Name], s)
	}
	h.mtx.Unlock()
	h.Beat()
}

func (c *C) catch() {
	rec := recover()
	if rec == nil {
		return
	}
	if _, ok := rec.(stopCase); ok {
		return
	}
	c.record("", fmt.Sprintf("unexpected panic: %v\n%s", rec, debug.Stack()))
}

func (c *C) record(known, msg string) {
	c.mtx.Lock()
	log := append([]string(nil), c.log...)
	c.failed = true
	c.mtx.Unlock()
	if len(log) > 400 {
		log = append([]string{fmt.Sprintf("(%d earlier entries)", len(log)-400)}, log[len(log)-400:]...)
	}
	h := c.H
	h.mtx.Lock()
	if known != "" {
		if h.known[known] {
			h.mtx.Unlock()
			return
		}
		h.known[known] = true
	}
	if len(h.violations) < 40 {
		h.violations = append(h.violations, Violation{
			Scenario: c.Name, Case: c.Idx, Known: known, Message: msg, Log: log})
	}
	n := len(h.violations)
	h.mtx.Unlock()
	if n <= 3 {
		h.write()
	}
}

// Failf records a violation.
func (c *C) Failf(format string, args ...interface{}) {
	c.record("", fmt.Sprintf(format, args...))
}

// Fatalf records a violation and ends the case (only the calling goroutine).
func (c *C) Fatalf(format string, args ...interface{}) {
	c.record("", fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// Known records an instance of a possibly listed finding.
func (c *C) Known(key, format string, args ...interface{}) {
	c.record(key, fmt.Sprintf(format, args...))
}

// Failed tells whether the case recorded a violation.
func (c *C) Failed() bool {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	return c.failed
}

// Logf adds to the witness of the case.
func (c *C) Logf(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	c.mtx.Lock()
	if len(c.log) < 20000 {
		c.log = append(c.log, s)
	}
	c.mtx.Unlock()
}

// Sig contributes to what makes this case distinct.
func (c *C) Sig(parts ...interface{}) {
	x := hash(parts...)
	c.mtx.Lock()
	c.sig = c.sig*1099511628211 + x | 1
	c.mtx.Unlock()
}

// SigN is a cheap Sig.
func (c *C) SigN(x uint64) {
	c.mtx.Lock()
	c.sig = (c.sig*1099511628211 + x) | 1
	c.mtx.Unlock()
}

// Events counts monitored events.
func (c *C) Events(n int) { c.events.Add(int64(n)) }

// Go runs f concurrently; the case ends only after it returned.
func (c *C) Go(f func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer c.catch()
		f()
	}()
}

// Wait waits for all that was started with Go.
func (c *C) Wait() { c.wg.Wait() }

// Await waits for ch to be closed or to receive. If that doesn't happen for a
// very long time it records a violation and ends the case.
func Await[T any](c *C, ch <-chan T, what string) (v T) {
	select {
	case v = <-ch:
		return v
	default:
	}
	for i := 0; i < 60; i++ {
		t := time.NewTimer(time.Second)
		select {
		case v = <-ch:
			t.Stop()
			return v
		case <-t.C:
			c.Beat()
		}
	}
	c.Fatalf("never happened (waited 60 s): %s", what)
	return v
}

// Catch runs f and returns what it panicked with, if it did.
func Catch(f func()) (rec interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			rec = recover()
		}
	}()
	f()
	panicked = false
	return nil, false
}

type result struct {
	ID         string                    `json:"id"`
	Mode       string                    `json:"mode"`
	Done       bool                      `json:"done"`
	WallS      float64                   `json:"wall_s"`
	Scenarios  map[string]*scenarioStats `json:"scenarios"`
	Hashes     map[string][]uint64       `json:"hashes"`
	Samples    map[string][]string       `json:"samples"`
	Violations []Violation               `json:"violations"`
	Notes      map[string]int64          `json:"notes"`
	Times      map[string]float64        `json:"times"`
	done       bool
}

func (h *H) write() { h.writeDone(false) }

func (h *H) writeDone(done bool) {
	if h.out == "" {
		return
	}
	h.mtx.Lock()
	r := result{ID: h.ID, Mode: h.Mode, Done: done, WallS: time.Since(h.start).Seconds(),
		Scenarios: h.scenarios, Hashes: map[string][]uint64{}, Samples: h.samples,
		Violations: h.violations, Notes: h.notes, Times: h.began}
	for name, st := range h.scenarios {
		for x := range st.hashes {
			r.Hashes[name] = append(r.Hashes[name], x)
		}
	}
	data, err := json.Marshal(r)
	h.mtx.Unlock()
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(h.out+".tmp", data, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(h.out+".tmp", h.out); err != nil {
		panic(err)
	}
}

// Finish writes the results.
func (h *H) Finish() {
	h.writeDone(true)
	if h.out == "" {
		h.mtx.Lock()
		defer h.mtx.Unlock()
		for name, st := range h.scenarios {
			fmt.Printf("%-28s cases %7d distinct %7d events %8d  %.2fs\n", name, st.Cases, len(st.hashes), st.Events, h.began[name])
		}
		fmt.Println(h.notes)
		for _, v := range h.violations {
			fmt.Printf("VIOLATION %s:%d known=%q %s\n", v.Scenario, v.Case, v.Known, v.Message)
			if os.Getenv("VH_LOG") != "" {
				for _, l := range v.Log {
					fmt.Println("   ", l)
				}
			}
		}
	}
}

// Bubble runs f with virtual time and ends the process: goroutines that the
// library starts in there never end.
func Bubble(t *testing.T, id string, f func(h *H)) {
	h := New(t, id)
	synctest.Test(t, func(t *testing.T) {
		f(h)
		h.Finish()
		os.Exit(0)
	})
}

// Main runs a check: normally, or, in the phase "frozen", only its cases that
// don't depend on the schedule, in virtual time, in which the clock stands
// still while anything runs.
func Main(t *testing.T, id string, f func(h *H)) {
	if Phase("frozen") {
		Bubble(t, id, func(h *H) {
			h.frozen = true
			f(h)
		})
		return
	}
	h := New(t, id)
	f(h)
	h.Finish()
}

// Phase tells whether the run is for the named part of the check.
func Phase(name string) bool { return os.Getenv("VH_PHASE") == name }
