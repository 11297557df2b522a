// Package c27 compares the environment sources with the process's state.
package c27

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"

	"verifh/vh"
)

var inited = time.Now()

const scope = "github.com/spacemonkeygo/monkit/v3/environment"

// readout is what a source said.
type readout map[string]map[string]float64

func read(s monkit.StatSource) (readout, error) {
	out := readout{}
	var err error
	s.Stats(func(k monkit.SeriesKey, f string, v float64) {
		m := out[k.Measurement]
		if m == nil {
			m = map[string]float64{}
			out[k.Measurement] = m
		}
		if _, ok := m[f]; ok {
			err = fmt.Errorf("%s %s is reported twice", k, f)
		}
		m[f] = v
		if tags := k.Tags.All(); len(tags) != 1 || tags["scope"] != scope {
			err = fmt.Errorf("%s has tags %v", k.Measurement, tags)
		}
	})
	return out, err
}

var statFields = strings.Fields(`Pid Comm State Ppid Pgrp Session TtyNr Tpgid Flags Minflt Cminflt
Majflt Cmajflt Utime Stime Cutime Cstime Priority Nice NumThreads Itrealvalue
Starttime Vsize Rss Rsslim Startcode Endcode Startstack Kstkesp Kstkeip Signal
Blocked Sigignore Sigcatch Wchan Nswap Cnswap ExitSignal Processor RtPriority
Policy DelayAcctBlkioTicks GuestTime CguestTime`)

var statmFields = strings.Fields(`Size Resident Share Text Lib Data Dt`)

// parseStat reads the kernel's format.
func parseStat(data string) (map[string]float64, error) {
	i, j := strings.IndexByte(data, '('), strings.LastIndexByte(data, ')')
	if i < 0 || j < i {
		return nil, fmt.Errorf("format: %q", data)
	}
	parts := append(strings.Fields(data[:i]), "")
	parts = append(parts, strings.Fields(data[j+1:])...)
	if len(parts) < len(statFields) {
		return nil, fmt.Errorf("fields: %q", data)
	}
	out := map[string]float64{}
	for k, name := range statFields {
		switch name {
		case "Comm":
		case "State":
			out[name] = float64(parts[k][0])
		default:
			out[name] = num(parts[k])
		}
	}
	return out, nil
}

func num(s string) float64 {
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return float64(v)
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return math.NaN()
	}
	return float64(v)
}

func parseStatm(data string) (map[string]float64, error) {
	parts := strings.Fields(data)
	if len(parts) < len(statmFields) {
		return nil, fmt.Errorf("fields: %q", data)
	}
	out := map[string]float64{}
	for k, name := range statmFields {
		out[name] = num(parts[k])
	}
	return out, nil
}

// flat gives the numbers of a struct.
func flat(prefix string, v reflect.Value, out map[string]float64) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			name := f.Name
			if prefix != "" {
				name = prefix + "." + name
			}
			if f.PkgPath == "" {
				flat(name, v.Field(i), out)
			}
		}
	case reflect.Bool:
		out[prefix] = 0
		if v.Bool() {
			out[prefix] = 1
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		out[prefix] = float64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		out[prefix] = float64(v.Uint())
	case reflect.Float32, reflect.Float64:
		out[prefix] = v.Float()
	}
}

// truth is the state of the process, by other means.
type truth struct {
	r    readout
	gc   debug.GCStats
	time time.Time
	fds  int
}

func fdCount() int {
	f, err := os.Open("/proc/self/fd")
	if err != nil {
		return -1
	}
	defer f.Close()
	names, _ := f.Readdirnames(-1)
	return len(names)
}

var crcOnce sync.Once
var crcValue float64

func truthNow() (truth, error) {
	var t truth
	t.r = readout{}
	data, err := os.ReadFile("/proc/self/stat")
	if err != nil {
		return t, err
	}
	if t.r["proc_stat"], err = parseStat(string(data)); err != nil {
		return t, err
	}
	if data, err = os.ReadFile("/proc/self/statm"); err != nil {
		return t, err
	}
	if t.r["proc_statm"], err = parseStatm(string(data)); err != nil {
		return t, err
	}
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return t, err
	}
	t.r["rusage"] = map[string]float64{}
	flat("", reflect.ValueOf(ru), t.r["rusage"])
	t.r["goroutines"] = map[string]float64{"count": float64(runtime.NumGoroutine())}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	t.r["runtime_memstats"] = map[string]float64{}
	flat("", reflect.ValueOf(ms), t.r["runtime_memstats"])
	debug.ReadGCStats(&t.gc)
	crcOnce.Do(func() {
		if data, err := os.ReadFile("/proc/self/exe"); err == nil {
			crcValue = float64(crc32.ChecksumIEEE(data))
		}
	})
	t.r["process"] = map[string]float64{"control": 1, "crc": crcValue, "uptime": 0}
	t.fds = fdCount()
	t.r["fds"] = map[string]float64{"count": float64(t.fds)}
	t.time = time.Now()
	return t, nil
}

// shape checks that a readout has everything and nothing else.
func shape(got, want readout) error {
	for m := range got {
		if want[m] == nil && m != "runtime_gcstats" {
			return fmt.Errorf("%s is reported", m)
		}
	}
	for m, fields := range want {
		for f := range fields {
			if _, ok := got[m][f]; !ok {
				return fmt.Errorf("%s %s is missing", m, f)
			}
		}
		for f := range got[m] {
			if _, ok := fields[f]; !ok {
				return fmt.Errorf("%s %s is reported", m, f)
			}
		}
	}
	if _, ok := got["runtime_gcstats"]["count"]; !ok {
		return fmt.Errorf("runtime_gcstats count is missing")
	}
	return nil
}

// probe is one state of affairs that is read out until everything was right.
type probe struct {
	reg       monkit.StatSource
	open      map[string]string // what was not right yet, and how
	readers   int
	lastUp    float64
	lastBegin time.Time
	lastEnd   time.Time
	spawned   time.Time
	readouts  int
}

// round reads out once between two looks at the truth.
func (p *probe) round() error {
	a, err := truthNow()
	if err != nil {
		return err
	}
	begin := time.Now()
	got, err := read(p.reg)
	end := time.Now()
	if err != nil {
		return err
	}
	p.readouts++
	b, err := truthNow()
	if err != nil {
		return err
	}
	if err := shape(got, a.r); err != nil {
		return err
	}
	if got["process"]["crc"] != crcValue {
		return fmt.Errorf("the checksum is reported as %v, it is %v", got["process"]["crc"], crcValue)
	}
	if got["process"]["control"] != 1 {
		return fmt.Errorf("process control is reported as %v", got["process"]["control"])
	}
	up := got["process"]["uptime"]
	if min := begin.Sub(inited).Seconds(); up < min-1e-6 {
		return fmt.Errorf("uptime is reported as %v after %v", up, min)
	}
	if !p.spawned.IsZero() {
		if max := end.Sub(p.spawned).Seconds(); up > max+.1 {
			return fmt.Errorf("uptime is reported as %v within %v", up, max)
		}
	}
	if !p.lastEnd.IsZero() {
		d := up - p.lastUp
		min, max := begin.Sub(p.lastEnd).Seconds(), end.Sub(p.lastBegin).Seconds()
		if d < min-1e-6 || d > max+1e-6 {
			return fmt.Errorf("uptime went up by %v in a time of %v to %v", d, min, max)
		}
	}
	p.lastUp, p.lastBegin, p.lastEnd = up, begin, end
	first := p.open == nil
	if first {
		p.open = map[string]string{}
	}
	for m, fields := range a.r {
		if m == "process" {
			continue
		}
		for f := range fields {
			key := m + " " + f
			if _, ok := p.open[key]; !ok && !first {
				continue
			}
			x, y, v := a.r[m][f], b.r[m][f], got[m][f]
			if m == "rusage" && strings.HasSuffix(f, ".Sec") {
				o := strings.TrimSuffix(f, ".Sec") + ".Usec"
				x, y, v = x*1e6+a.r[m][o], y*1e6+b.r[m][o], v*1e6+got[m][o]
			} else if m == "rusage" && strings.HasSuffix(f, ".Usec") {
				if v >= 0 && v < 1e6 {
					delete(p.open, key)
					continue
				}
			}
			if x > y {
				x, y = y, x
			}
			if m == "fds" && v == x-1 {
				v = x // the directory itself need not be counted
			}
			if v >= x && v <= y {
				delete(p.open, key)
			} else {
				p.open[key] = fmt.Sprintf("%s is reported as %v, it was %v and %v", key, v, x, y)
			}
		}
	}
	return nil
}

// until repeats rounds until everything was right at least once.
func (p *probe) until(n int) error {
	p.open = nil
	for i := 0; i < n; i++ {
		if err := p.round(); err != nil {
			return err
		}
		if len(p.open) == 0 {
			return nil
		}
		if i > 4 {
			time.Sleep(time.Millisecond)
		}
	}
	var list []string
	for _, s := range p.open {
		list = append(list, s)
	}
	sort.Strings(list)
	return fmt.Errorf("%s (on each of %d readouts)", strings.Join(list, "; "), n)
}

func registry() *monkit.Registry {
	reg := monkit.NewRegistry()
	environment.Register(reg)
	return reg
}

// state changes the process and has everything compared.
func state(c *vh.C) {
	r := c.Rng
	reg := registry()
	p := &probe{reg: reg}
	if r.Intn(4) == 0 {
		p.reg = monkit.TransformStatSource(reg)
	}
	var files []*os.File
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mem [][]byte
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	defer func() {
		close(stop)
		wg.Wait()
		for _, f := range files {
			f.Close()
		}
	}()
	for i := 1 + r.Intn(4); i > 0; i-- {
		what := r.Intn(7)
		n := 0
		switch what {
		case 0: // files
			n = r.Intn(60)
			if r.Intn(6) == 0 {
				n = 1000 + r.Intn(8000)
			}
			for j := 0; j < n; j++ {
				f, err := os.Open("/dev/null")
				if err != nil {
					break
				}
				files = append(files, f)
			}
		case 1:
			n = r.Intn(len(files) + 1)
			for j := 0; j < n; j++ {
				files[j].Close()
			}
			files = files[n:]
		case 2:
			n = r.Intn(100)
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() { defer wg.Done(); <-stop }()
			}
		case 3:
			n = r.Intn(1 << 22)
			b := make([]byte, n)
			for j := 0; j < n; j += 4096 {
				b[j] = 1
			}
			mem = append(mem, b)
		case 4:
			runtime.GC()
		case 5:
			end := time.Now().Add(time.Duration(r.Intn(15)) * time.Millisecond)
			x := 0
			for time.Now().Before(end) {
				x++
			}
			n = 0
		case 6:
			_ = exec.Command("/bin/true").Run()
		}
		c.Logf("state %d: %d", what, n)
		c.Sig(what, n)
		if err := p.until(40); err != nil {
			c.Fatalf("%v", err)
		}
	}
	c.Events(p.readouts)
	c.Note("descriptors at most", 0)
	c.H.NoteMax("descriptors at most", int64(len(files)))
	runtime.KeepAlive(mem)
}

// leak reads out often and looks for what stays.
func leak(c *vh.C) {
	reg := registry()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	if _, err := read(reg); err != nil {
		c.Fatalf("%v", err)
	}
	for attempt := 0; ; attempt++ {
		f0, g0 := fdCount(), runtime.NumGoroutine()
		n := 30 + c.Rng.Intn(40)
		for i := 0; i < n; i++ {
			if _, err := read(reg); err != nil {
				c.Fatalf("%v", err)
			}
		}
		c.Events(n)
		c.Sig(n)
		f1, g1 := fdCount(), runtime.NumGoroutine()
		if f1 == f0 && g1 == g0 {
			return
		}
		if attempt == 3 {
			c.Fatalf("after %d readouts there are %d descriptors instead of %d and %d goroutines instead of %d", n, f1, f0, g1, g0)
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// pauses checks the samples of garbage collections.
func pauses(c *vh.C) {
	r := c.Rng
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	src := environment.Runtime()
	shared := registry() // all registries share one source
	dist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
	sharedCount := func() float64 {
		out, err := read(shared)
		if err != nil {
			c.Fatalf("%v", err)
		}
		return out["runtime_gcstats"]["count"]
	}
	last := sharedCount()
	var lastNum int64
	check := func(when string, fresh bool) {
		var gc debug.GCStats
		debug.ReadGCStats(&gc)
		if gc.NumGC != lastNum && len(gc.Pause) > 0 {
			dist.Insert(gc.Pause[0])
			lastNum = gc.NumGC
		}
		got, want := map[string]float64{}, map[string]float64{}
		src.Stats(func(k monkit.SeriesKey, f string, v float64) {
			if k.Measurement == "runtime_gcstats" {
				got[f] = v
			}
		})
		var after debug.GCStats
		debug.ReadGCStats(&after)
		if after.NumGC != gc.NumGC {
			// somebody else collected
			c.Note("disturbed", 1)
			lastNum = -1
			return
		}
		dist.Stats(func(k monkit.SeriesKey, f string, v float64) {
			want[f] = v
		})
		if lastNum >= 0 {
			for _, f := range []string{"count", "sum", "min", "max", "recent"} {
				g, gok := got[f]
				w, wok := want[f]
				if gok != wok || math.Abs(g-w) > 1e-9*(1+math.Abs(w)) {
					c.Fatalf("%s: %s of the pauses is reported as %v, it is %v", when, f, g, w)
				}
			}
		}
		n := sharedCount()
		add := 0.0
		if fresh {
			add = 1
		}
		if n != last+add {
			c.Fatalf("%s: the number of samples went from %v to %v", when, last, n)
		}
		last = n
		c.Events(2)
	}
	first := runtime.MemStats{}
	runtime.ReadMemStats(&first)
	check("first readout", false)
	for i := 2 + r.Intn(12); i > 0; i-- {
		n := r.Intn(4)
		for j := 0; j < n; j++ {
			runtime.GC()
		}
		c.Sig(n)
		c.Logf("%d collections", n)
		check(fmt.Sprintf("after %d collections", n), n > 0)
		if lastNum < 0 {
			return
		}
	}
}

// together has many read out at once while collections happen.
func together(c *vh.C) {
	r := c.Rng
	reg := registry()
	var src monkit.StatSource = environment.Runtime()
	if r.Intn(5) == 0 {
		src = reg
	}
	want, err := truthNow()
	if err != nil {
		c.Fatalf("%v", err)
	}
	start := make(chan struct{})
	type seen struct {
		begin, end int64
		lo, hi     uint32 // collections known before and after
		count      float64
	}
	var clock atomic.Int64
	var mtx sync.Mutex
	var all []seen
	numGC := func() uint32 {
		var gc debug.GCStats
		debug.ReadGCStats(&gc)
		return uint32(gc.NumGC)
	}
	count := func(check bool) float64 {
		n := -1.0
		got := readout{}
		src.Stats(func(k monkit.SeriesKey, f string, v float64) {
			if k.Measurement == "runtime_gcstats" && f == "count" {
				n = v
			}
			if got[k.Measurement] == nil {
				got[k.Measurement] = map[string]float64{}
			}
			got[k.Measurement][f] = v
		})
		if check && src == monkit.StatSource(reg) {
			if err := shape(got, want.r); err != nil {
				c.Failf("%v", err)
			}
			if got["process"]["crc"] != crcValue {
				c.Failf("the checksum is reported as %v, it is %v", got["process"]["crc"], crcValue)
			}
			f := got["fds"]["count"]
			if f < 3 || f > float64(want.fds+64) {
				c.Failf("%v descriptors reported, there are about %d", f, want.fds)
			}
		}
		return n
	}
	gc0 := numGC()
	before := count(true)
	workers := 2 + r.Intn(6)
	for g := 0; g < workers; g++ {
		c.Go(func() {
			<-start
			for i := 0; i < 12; i++ {
				var s seen
				s.lo = numGC()
				s.begin = clock.Add(1)
				s.count = count(true)
				s.end = clock.Add(1)
				s.hi = numGC()
				mtx.Lock()
				all = append(all, s)
				mtx.Unlock()
			}
		})
	}
	gcs := r.Intn(40)
	c.Go(func() {
		<-start
		for i := 0; i < gcs; i++ {
			runtime.GC()
			runtime.Gosched()
		}
	})
	close(start)
	c.Wait()
	if c.Failed() {
		return
	}
	gcA := numGC()
	final := count(true)
	again := count(true)
	gc1 := numGC()
	c.Logf("%d collections, %v samples before, %v after", gc1-gc0, before, final)
	c.Sig(gc1-gc0, final-before, workers)
	c.Events(len(all))
	if final-before > float64(gc1-gc0) {
		c.Failf("%v samples were added for %d collections", final-before, gc1-gc0)
	}
	if again != final && gcA == gc1 {
		c.Failf("the number of samples went from %v to %v without a collection", final, again)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].begin < all[j].begin })
	for i, a := range all {
		// no more samples than collections seen at all, no fewer than already reported
		if a.count < before || a.count-before > float64(a.hi-gc0) {
			c.Failf("%v samples after %v with %d collections", a.count, before, a.hi-gc0)
		}
		for _, b := range all[i+1:] {
			if a.end < b.begin && b.count < a.count {
				c.Failf("the number of samples went from %v to %v", a.count, b.count)
			}
			if a.end < b.begin && a.hi < b.lo && b.count == a.count {
				c.Failf("a readout found %d collections after one that found at most %d, and added no sample", b.lo, a.hi)
			}
		}
	}
}

// names of executables, and what else is done to them.
var exeNames = []string{"plain", "a b", "(", ")", "x) R 1 (", "a (b) c", "((", "))", ") S 2 3", "é", "\xff\xfe", "tab\tx",
	"new\nline", "back\\slash", "1 (2) 3", "sixteen characters and more", " ", "%d", "$x'\"", "S 1 1 1 1", "-n"}

// child runs this program under another name and has it compare everything.
func child(c *vh.C) {
	r := c.Rng
	name := exeNames[c.Idx%len(exeNames)]
	what := []string{"stays", "deleted", "replaced", "renamed", "linked", "starved"}[c.Idx/len(exeNames)%6]
	if c.Idx >= 6*len(exeNames) {
		what = []string{"stays", "deleted", "replaced", "renamed", "linked", "starved"}[r.Intn(6)]
	}
	dir, err := os.MkdirTemp("", "c27-")
	if err != nil {
		c.Fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, name)
	self, err := os.ReadFile("/proc/self/exe")
	if err != nil {
		c.Fatalf("%v", err)
	}
	real := path
	if what == "linked" {
		real = filepath.Join(dir, "real exe")
	}
	if err := os.WriteFile(real, self, 0755); err != nil {
		c.Fatalf("%v", err)
	}
	if what == "linked" {
		if err := os.Symlink(real, path); err != nil {
			c.Fatalf("%v", err)
		}
	}
	in, _ := json.Marshal(task{What: what, CRC: crc32.ChecksumIEEE(self), Spawned: time.Now().UnixNano(), Seed: r.Int63(), Nice: r.Intn(10)})
	cmd := exec.Command(path, "-test.run=^TestChild$")
	cmd.Dir = dir
	cmd.Args[0] = []string{"", "argv0", name}[r.Intn(3)]
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VH_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "C27_CHILD="+string(in), "C27_PATH="+path, "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=10")
	if r.Intn(2) == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	} else if r.Intn(2) == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	c.Logf("executable %q is %s", name, what)
	for i := 0; ; i++ {
		if err = cmd.Start(); err == nil {
			break
		}
		if i > 50 {
			c.Fatalf("can't start: %v", err)
		}
		// text file busy: another fork held the file open
		time.Sleep(20 * time.Millisecond)
		cmd = &exec.Cmd{Path: cmd.Path, Args: cmd.Args, Dir: cmd.Dir, Env: cmd.Env, SysProcAttr: cmd.SysProcAttr, Stdout: &out, Stderr: &out}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	err = vh.Await(c, done, "the child's end")
	text := out.String()
	if i := strings.Index(text, "C27 FAIL "); i >= 0 {
		c.Fatalf("%q, %s: %s", name, what, strings.SplitN(text[i+9:], "\nC27 END", 2)[0])
	}
	if err != nil || !strings.Contains(text, "C27 OK ") {
		c.Fatalf("%q, %s: child: %v\n%s", name, what, err, text)
	}
	var n int
	fmt.Sscanf(text[strings.Index(text, "C27 OK "):], "C27 OK %d", &n)
	c.Events(n)
	c.Sig(name, what)
}

type task struct {
	Path, What string
	CRC        uint32
	Spawned    int64
	Seed       int64
	Nice       int
}

func TestChild(t *testing.T) {
	in := os.Getenv("C27_CHILD")
	if in == "" {
		return
	}
	var k task
	if err := json.Unmarshal([]byte(in), &k); err != nil {
		fmt.Println("C27 FAIL", err)
		return
	}
	k.Path = os.Getenv("C27_PATH")
	n, err := childWork(k)
	if err != nil {
		fmt.Printf("C27 FAIL %v\nC27 END\n", err)
		return
	}
	fmt.Printf("C27 OK %d\n", n)
}

func childWork(k task) (int, error) {
	r := rand.New(rand.NewSource(k.Seed))
	debug.SetGCPercent(-1)
	_ = syscall.Setpriority(syscall.PRIO_PROCESS, os.Getpid(), k.Nice)
	crcOnce.Do(func() { crcValue = float64(k.CRC) })
	switch k.What {
	case "deleted":
		os.Remove(k.Path)
	case "replaced":
		os.Remove(k.Path)
		if err := os.WriteFile(k.Path, []byte("#!/bin/sh\n"), 0755); err != nil {
			return 0, err
		}
	case "renamed":
		if err := os.Rename(k.Path, filepath.Join(filepath.Dir(k.Path), "other name (x)")); err != nil {
			return 0, err
		}
	}
	reg := monkit.Default
	environment.Register(nil)
	p := &probe{reg: reg, spawned: time.Unix(0, k.Spawned)}
	if k.What == "starved" {
		if err := starve(reg); err != nil {
			return 0, err
		}
	}
	if err := p.until(40); err != nil {
		return 0, err
	}
	for i := 0; i < 3; i++ {
		_ = exec.Command("/bin/true").Run()
		b := make([]byte, 1<<20+r.Intn(1<<20))
		for j := range b {
			b[j] = byte(j)
		}
		runtime.GC()
		if err := p.until(40); err != nil {
			return 0, err
		}
	}
	return p.readouts, nil
}

// starve reads out while there are no descriptors to be had.
func starve(reg *monkit.Registry) error {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		return err
	}
	low := old
	low.Cur = 0
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
		return err
	}
	_, err := read(reg)
	_, err2 := read(reg)
	if e := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); e != nil {
		return e
	}
	if err != nil {
		return err
	}
	return err2
}

// fake has the kernel's files say something else.
func fake(c *vh.C) {
	r := c.Rng
	reg := registry()
	for i := 0; i < 20; i++ {
		var parts []string
		pid := 1 + r.Intn(1<<22)
		for pid == os.Getpid() {
			pid++
		}
		comm := exeNames[r.Intn(len(exeNames))]
		comm = strings.ReplaceAll(comm, "\n", "\\n")
		if r.Intn(3) == 0 {
			comm = ""
			for j := r.Intn(16); j > 0; j-- {
				comm += string(" ()0123S%\\x-"[r.Intn(11)])
			}
		}
		for k, name := range append(append([]string(nil), statFields...), make([]string, r.Intn(9))...) {
			var v string
			switch {
			case name == "Pid":
				v = strconv.Itoa(pid)
			case name == "Comm":
				v = "(" + comm + ")"
			case name == "State":
				v = string("RSDZTtWXxKPI"[r.Intn(12)])
			case strings.Contains(" Ppid Pgrp Session TtyNr Tpgid Priority Nice ExitSignal Processor ", " "+name+" "):
				v = strconv.Itoa(int(int32(r.Uint32() >> uint(r.Intn(32)))))
			case strings.Contains(" Cutime Cstime NumThreads Itrealvalue Rss CguestTime ", " "+name+" "):
				v = strconv.FormatInt(r.Int63()>>uint(r.Intn(63)), 10)
			default:
				v = strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10)
			}
			_ = k
			parts = append(parts, v)
		}
		stat := strings.Join(parts, " ") + "\n"
		var mparts []string
		for range statmFields {
			mparts = append(mparts, strconv.FormatInt(r.Int63()>>uint(23+r.Intn(40)), 10))
		}
		statm := strings.Join(mparts, " ") + "\n"
		if err := os.WriteFile("verifproc/stat", []byte(stat), 0644); err != nil {
			c.Fatalf("%v", err)
		}
		if err := os.WriteFile("verifproc/statm", []byte(statm), 0644); err != nil {
			c.Fatalf("%v", err)
		}
		got, err := read(reg)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if got["proc_stat"]["Pid"] == float64(os.Getpid()) {
			// it didn't read our file
			c.Note("not redirected", 1)
		} else {
			want, err := parseStat(stat)
			if err != nil {
				c.Fatalf("%v", err)
			}
			same(c, "proc_stat", stat, got, want)
		}
		if got["proc_statm"]["Size"] < 1e7 && got["proc_statm"]["Size"] != num(mparts[0]) {
			c.Note("not redirected", 1)
		} else {
			want, _ := parseStatm(statm)
			same(c, "proc_statm", statm, got, want)
		}
		c.Events(2)
		c.Sig(stat, statm)
	}
}

func same(c *vh.C, m, text string, got readout, want map[string]float64) {
	for f, v := range want {
		if g, ok := got[m][f]; !ok || g != v {
			c.Fatalf("%s is reported as %v (%v) when the kernel says\n%s", f, g, ok, text)
		}
	}
	if len(got[m]) != len(want) {
		c.Fatalf("%d fields of %s reported when the kernel says\n%s", len(got[m]), m, text)
	}
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C27")
	if vh.Phase("fake") {
		dir, err := os.MkdirTemp("", "c27-")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		if err := os.Mkdir(filepath.Join(dir, "verifproc"), 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.Chdir(dir); err != nil {
			t.Fatal(err)
		}
		h.Serial("fake", h.N(300), fake)
		h.Finish()
		return
	}
	h.Serial("state", h.N(60), state)
	h.Serial("leak", h.N(3), leak)
	h.Serial("pauses", h.N(40), pauses)
	h.Serial("child", max(6*len(exeNames), h.N(1)), child)
	h.Conc("together", h.N(300), together)
	h.Finish()
}
