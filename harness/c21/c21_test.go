package c21

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/pw"
	"verifh/vh"
)

const every = 30 * time.Second

var scopes = []string{"pk", "other/pk", "x"}
var names = []string{"alpha", "beta", "gamma", "alphabet", "Type.Method", "a b"}
var regexes = []string{"alpha", "alpha$", `^pk\.`, "a", "gam+a", `^x\.beta$`, `Type\.Method`, "(?i)BETA", ".", "pk.a[l]", "^alpha$|^pk.gamma$", "^(alpha|x.beta)$"}

// sp is one call.
type sp struct {
	s        *monkit.Span
	parent   *sp
	full     string
	trace    *monkit.Trace
	matched  bool // would match
	sinceHit bool
	done     bool
	order    int
	ctx      context.Context
	exit     func(*error)
}

type world struct {
	c     *vh.C
	r     *rand.Rand
	reg   *monkit.Registry
	every map[*monkit.Func]string // functions that exist
	live  []*sp
	all   []*sp
	cbs   map[*monkit.Trace]int
	cbMtx sync.Mutex
	ids   []int64
}

func newWorld(c *vh.C) *world {
	w := &world{c: c, r: c.Rng, reg: monkit.NewRegistry(), every: map[*monkit.Func]string{}, cbs: map[*monkit.Trace]int{}}
	for i := 0; i < 3; i++ {
		w.ids = append(w.ids, vh.Int64(c.Rng))
	}
	for i := c.Rng.Intn(8); i > 0; i-- {
		w.fn()
	}
	return w
}

func (w *world) fn() (*monkit.Func, string) {
	s, n := scopes[w.r.Intn(len(scopes))], names[w.r.Intn(len(names))]
	// functions may share their name
	var tags []monkit.SeriesTag
	if w.r.Intn(3) == 0 {
		tags = append(tags, monkit.NewSeriesTag("k", strconv.Itoa(w.r.Intn(3))))
	}
	f := w.reg.ScopeNamed(s).FuncNamed(n, tags...)
	w.every[f] = s + "." + n
	return f, s + "." + n
}

func (w *world) start() *sp {
	f, full := w.fn()
	var parent *sp
	ctx := context.Background()
	if len(w.live) > 0 && w.r.Intn(3) != 0 {
		parent = w.live[w.r.Intn(len(w.live))]
		ctx = parent.ctx
	}
	x := &sp{parent: parent, full: full, order: len(w.all)}
	switch w.r.Intn(6) {
	case 0:
		x.parent = nil
		t := monkit.NewTrace(w.ids[w.r.Intn(len(w.ids))])
		w.track(t)
		x.exit = f.RemoteTrace(&ctx, -1234567891234567, t)
	case 1:
		x.parent = nil
		x.exit = f.ResetTrace(&ctx)
	default:
		x.exit = f.Task(&ctx)
	}
	x.ctx = ctx
	x.s = monkit.SpanFromCtx(ctx)
	x.trace = x.s.Trace()
	w.live = append(w.live, x)
	w.all = append(w.all, x)
	w.c.Logf("start %d %s trace %x", x.order, full, uint64(x.trace.Id()))
	return x
}

// track sets the callback on a trace; too late for the span that makes the
// trace, unless the trace is known before.
func (w *world) track(t *monkit.Trace) {
	t.Set(present.SampledCBKey, func(got *monkit.Trace) {
		w.cbMtx.Lock()
		defer w.cbMtx.Unlock()
		w.cbs[t]++
		if got != t {
			w.c.Failf("callback got another trace")
		}
		if v, _ := t.Get(present.SampledKey).(bool); !v {
			w.c.Failf("callback called before the trace was marked")
		}
	})
}

func (w *world) end(x *sp) {
	var err error
	if w.r.Intn(4) == 0 {
		err = errors.New("failed")
	}
	x.done = true
	x.exit(&err)
	for i, l := range w.live {
		if l == x {
			w.live = append(w.live[:i], w.live[i+1:]...)
			break
		}
	}
	w.c.Logf("end %d", x.order)
}

// sink records what reaches it, and when. It can fail.
type sink struct {
	mtx     sync.Mutex
	data    []byte
	flushed int
	writes  int
	active  int32
	failOn  func(p []byte) error // called with the data written so far and more
	flushE  func() error
	hold    func(p []byte)
	c       *vh.C
}

func (s *sink) Write(p []byte) (int, error) {
	if atomic.AddInt32(&s.active, 1) != 1 {
		s.c.Failf("two writes at once: %.60q", p)
	}
	defer atomic.AddInt32(&s.active, -1)
	if s.hold != nil {
		s.hold(p)
	}
	if s.failOn != nil {
		if err := s.failOn(p); err != nil {
			return 0, err
		}
	}
	s.mtx.Lock()
	defer s.mtx.Unlock()
	s.data = append(s.data, p...)
	s.writes++
	return len(p), nil
}

func (s *sink) flush() error {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	s.flushed = len(s.data)
	if s.flushE != nil {
		return s.flushE()
	}
	return nil
}

func (s *sink) get() (data []byte, flushed, writes int) {
	s.mtx.Lock()
	defer s.mtx.Unlock()
	return append([]byte(nil), s.data...), s.flushed, s.writes
}

type flusher struct{ *sink }

func (f flusher) Flush() { _ = f.flush() }

type errFlusher struct{ *sink }

func (f errFlusher) Flush() error { return f.flush() }

// query is the query with what it has to find.
type query struct {
	kind    string
	q       url.Values
	re      *regexp.Regexp
	id      *int64
	known   map[*monkit.Func]bool // nil without preselection
	fails   bool
	viz     string
	matches func(f *monkit.Func, full string, id int64) bool
}

func (w *world) query() *query {
	r := w.r
	q := &query{kind: []string{"svg", "json", "remote", "remote"}[r.Intn(4)], q: url.Values{}}
	if r.Intn(4) != 0 {
		s := regexes[r.Intn(len(regexes))]
		q.re = regexp.MustCompile(s)
		q.q.Set("regex", s)
		if r.Intn(2) == 0 {
			q.q.Set("preselect", []string{"false", "0", "F"}[r.Intn(3)])
		} else {
			if r.Intn(2) == 0 {
				q.q.Set("preselect", "true")
			}
			q.preselect(w)
		}
	}
	if q.re == nil || r.Intn(4) == 0 {
		id := w.ids[r.Intn(len(w.ids))]
		if len(w.live) > 0 && r.Intn(3) == 0 {
			id = w.live[r.Intn(len(w.live))].trace.Id()
		}
		q.id = &id
		s := strconv.FormatUint(uint64(id), 16)
		switch r.Intn(3) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = "00" + s
		}
		q.q.Set("trace_id", s)
	}
	if q.kind == "remote" && r.Intn(2) == 0 {
		q.viz = []string{"http://viz/?a=b", "viz.example:80/x", "https://h/<\"'>", "h", "https://h:1/p?argv=1&x=%26%3D#frag", "http.example/?q=a+b"}[r.Intn(6)]
		q.q.Set("viz", q.viz)
	}
	q.matches = func(f *monkit.Func, full string, id int64) bool {
		if q.re != nil {
			if !q.re.MatchString(full) {
				return false
			}
			if q.known != nil && !q.known[f] {
				return false
			}
		}
		return q.id == nil || *q.id == id
	}
	return q
}

// preselect is what preselection makes of what there is now.
func (q *query) preselect(w *world) {
	q.known = map[*monkit.Func]bool{}
	for f, full := range w.every {
		if q.re.MatchString(full) {
			q.known[f] = true
		}
	}
	q.fails = len(q.known) == 0
}

func (q *query) make(c *vh.C, reg *monkit.Registry) present.Result {
	f, _, err := present.FromRequest(reg, "/trace/"+q.kind, q.q)
	if (err != nil) != q.fails {
		c.Fatalf("query %s %v: error %v", q.kind, q.q, err)
	}
	return f
}

var gid = regexp.MustCompile(`^id-(-?\d+)$`)

func spanIDs(kind string, doc []byte) (ids []int64, err error) {
	if kind == "json" {
		var l []struct {
			ID int64 `json:"id"`
		}
		if err := json.Unmarshal(doc, &l); err != nil {
			return nil, err
		}
		for _, x := range l {
			ids = append(ids, x.ID)
		}
	} else {
		if !bytes.HasPrefix(doc, []byte("<?xml")) && bytes.Contains(doc, []byte("<?xml")) {
			return nil, errors.New("XML declaration isn't at the start")
		}
		d := xml.NewDecoder(bytes.NewReader(doc))
		root := 0
		depth := 0
		for {
			t, err := d.Token()
			if err == io.EOF {
				break
			}
			if err != nil {
				return nil, err
			}
			switch t := t.(type) {
			case xml.StartElement:
				if depth == 0 {
					root++
				}
				depth++
				if t.Name.Local != "g" {
					continue
				}
				for _, a := range t.Attr {
					if m := gid.FindStringSubmatch(a.Value); a.Name.Local == "id" && m != nil {
						n, _ := strconv.ParseInt(m[1], 10, 64)
						ids = append(ids, n)
					}
				}
			case xml.EndElement:
				depth--
			}
		}
		if root != 1 {
			return nil, fmt.Errorf("%d root elements", root)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids, nil
}

// insertedNewlines tells whether got is doc with exactly n newlines added in
// one place.
func insertedNewlines(got, doc []byte, n int) bool {
	if len(got) != len(doc)+n {
		return false
	}
	i := 0
	for i < len(doc) && got[i] == doc[i] {
		i++
	}
	// the place may be up to n bytes to the left, next to equal newlines
	for ; i >= 0; i-- {
		if bytes.Equal(got[:i], doc[:i]) && bytes.Equal(got[i+n:], doc[i:]) && strings.Trim(string(got[i:i+n]), "\n") == "" {
			return true
		}
		if i > 0 && doc[i-1] != '\n' {
			break
		}
	}
	return false
}

// verify looks at a complete answer.
func verify(c *vh.C, q *query, hit *sp, want []int64, data []byte, ref []*collect.FinishedSpan, ka, kaMin int) {
	switch q.kind {
	case "svg", "json":
		ids, err := spanIDs(q.kind, data)
		if err != nil {
			c.Failf("%v: not a document: %v: %.200q", q.q, err, data)
			return
		}
		if fmt.Sprint(ids) != fmt.Sprint(want) {
			c.Failf("%v: spans %v, want %v", q.q, ids, want)
		}
		var doc bytes.Buffer
		if q.kind == "svg" {
			err = present.SpansToSVG(&doc, ref)
		} else {
			err = present.SpansToJSON(&doc, ref)
		}
		if err != nil {
			c.Failf("rendering: %v", err)
		}
		ok := false
		for n := kaMin; n <= ka; n++ {
			ok = ok || insertedNewlines(data, doc.Bytes(), n)
		}
		if !ok {
			c.Failf("%s %v: answer isn't the document with %d..%d keep-alives before it: %q, want %q", q.kind, q.q, kaMin, ka, data, doc.Bytes())
		}
	case "remote":
		if q.viz == "" {
			var x map[string]json.Number
			d := json.NewDecoder(bytes.NewReader(data))
			d.UseNumber()
			if err := d.Decode(&x); err != nil {
				c.Failf("%v: %v: %q", q.q, err, data)
				return
			}
			if len(x) != 1 || x["trace_id"].String() != fmt.Sprint(hit.trace.Id()) {
				c.Failf("%v: answer %q for trace %d", q.q, data, hit.trace.Id())
			}
			if rest, _ := io.ReadAll(d.Buffered()); strings.TrimSpace(string(rest)) != "" {
				c.Failf("%v: more after the answer: %q", q.q, data)
			}
		} else {
			m := regexp.MustCompile(`content="0;url=([^"]*)"`).FindSubmatch(data)
			if m == nil {
				c.Failf("%v: no redirection in %q", q.q, data)
				return
			}
			u, err := url.Parse(html.UnescapeString(string(m[1])))
			viz := q.viz
			if !strings.HasPrefix(viz, "http:") && !strings.HasPrefix(viz, "https:") {
				viz = "http://" + viz
			}
			to, perr := url.Parse(viz)
			if perr != nil {
				panic(perr)
			}
			args := to.Query()
			args["argv"] = append(args["argv"], fmt.Sprint(hit.trace.Id()))
			if err != nil || !reflect.DeepEqual(u.Query(), args) {
				c.Failf("%v: redirected to %q (%v), trace %d", q.q, m[1], err, hit.trace.Id())
				return
			}
			u.RawQuery, to.RawQuery = "", ""
			if u.String() != to.String() {
				c.Failf("%v: redirected to %q, asked for %q", q.q, u, to)
			}
			if !bytes.HasPrefix(data, []byte("<!DOCTYPE html>\n")) {
				c.Failf("%v: the page begins with %.30q", q.q, data)
			}
		}
		s := strings.TrimLeft(string(data), "\n")
		if n := len(data) - len(s); q.viz == "" && (n < kaMin || n > ka) {
			c.Failf("%v: %d newlines before the answer, want %d..%d", q.q, n, kaMin, ka)
		}
	}
}

// collected lists the spans that are reachable from the hit by finished ones.
func (w *world) collected(hit *sp) (ids []int64) {
	ok := map[*sp]bool{hit: true}
	for _, x := range w.all {
		if x.done && x.sinceHit && ok[x.parent] {
			ok[x] = true
		}
	}
	for x := range ok {
		ids = append(ids, x.s.Id())
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (w *world) marks(hit *sp, remote bool, cb bool) {
	c := w.c
	w.cbMtx.Lock()
	defer w.cbMtx.Unlock()
	seen := map[*monkit.Trace]bool{}
	for _, x := range w.all {
		if seen[x.trace] {
			continue
		}
		seen[x.trace] = true
		v, set := x.trace.Get(present.SampledKey).(bool)
		is := remote && hit != nil && hit.trace == x.trace
		if (set && v) != is || set != is {
			c.Failf("trace %x sampled %v/%v, but was matched: %v", uint64(x.trace.Id()), set, v, is)
		}
		n := w.cbs[x.trace]
		has := x.trace.Get(present.SampledCBKey) != nil
		switch {
		case is && cb && n != 1:
			c.Failf("sampling callback of the matched trace called %d times", n)
		case !is && n != 0:
			c.Failf("sampling callback of another trace called %d times", n)
		case !has && n != 0:
			c.Failf("callback")
		}
	}
}

// timeline follows one query through virtual time.
func timeline(c *vh.C) {
	r := c.Rng
	w := newWorld(c)
	for i := r.Intn(6); i > 0; i-- {
		w.start()
	}
	for _, x := range w.live {
		if r.Intn(2) == 0 && x.trace.Get(present.SampledCBKey) == nil {
			w.track(x.trace)
		}
	}
	q := w.query()
	if r.Intn(3) == 0 {
		// somebody asked the same before, when there were fewer functions
		q.make(c, w.reg)
		for i := 1 + r.Intn(4); i > 0; i-- {
			w.fn()
		}
		if q.known != nil {
			q.preselect(w)
		}
		c.Logf("asked before")
	}
	f := q.make(c, w.reg)
	c.Logf("query %s %v", q.kind, q.q)
	c.Sig(q.kind, q.q.Encode())
	if q.fails {
		c.Events(1)
		return
	}
	// spans may start and functions come up between making and running
	for i := r.Intn(3); i > 0; i-- {
		w.start()
	}
	s := &sink{c: c}
	var dest io.Writer = s
	fk := r.Intn(3)
	switch fk {
	case 1:
		dest = flusher{s}
	case 2:
		dest = errFlusher{s}
	}
	t0 := time.Now()
	failAt, bad := 0, errors.New("broken pipe")
	if r.Intn(4) == 0 {
		failAt = 1 + r.Intn(4)
		due := func() bool { return time.Since(t0) == time.Duration(failAt)*every }
		switch {
		case fk == 2 && r.Intn(2) == 0:
			s.flushE = func() error {
				if due() {
					return bad
				}
				return nil
			}
		case r.Intn(3) == 0:
			s.failOn = func([]byte) error {
				if due() {
					panic(bad)
				}
				return nil
			}
		default:
			s.failOn = func([]byte) error {
				if due() {
					return bad
				}
				return nil
			}
		}
		c.Logf("keep-alive %d fails", failAt)
	}
	var qerr error
	var returned atomic.Bool
	var t1 time.Time
	end := make(chan struct{})
	go func() {
		defer close(end)
		qerr = f(dest)
		t1 = time.Now()
		returned.Store(true)
	}()
	// the same by other means
	rctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ref []*collect.FinishedSpan
	refDone := make(chan struct{})
	go func() {
		defer close(refDone)
		ref, _ = collect.WatchForSpans(rctx, w.reg, func(s *monkit.Span) bool {
			return q.matches(s.Func(), s.Func().FullName(), s.Trace().Id())
		})
	}()
	synctest.Wait()
	var hit *sp
	var over bool
	var overAt time.Time
	for step := 0; step < 60 && !over; step++ {
		d := time.Duration(r.Intn(5)) * time.Duration(1+r.Intn(int(9*time.Second)))
		if r.Intn(6) == 0 {
			d = time.Duration(r.Intn(int(100 * time.Second)))
		}
		if e := (time.Since(t0) + d) % every; e == 0 {
			d++
		}
		time.Sleep(d)
		synctest.Wait()
		// what happened while asleep
		ka := int(time.Since(t0) / every)
		if failAt > 0 && ka >= failAt {
			over, overAt = true, t0.Add(time.Duration(failAt)*every)
			break
		}
		data, flushed, _ := s.get()
		if returned.Load() {
			c.Fatalf("query %v returned after %v with %v: %q", q.q, time.Since(t0), qerr, data)
		}
		if !keepAlives(data, ka, q) {
			c.Failf("after %v there should be %d keep-alives: %q", time.Since(t0), ka, data)
		}
		if fk != 0 && ka > 0 && flushed != len(data) {
			c.Failf("keep-alive not flushed: %d of %d bytes", flushed, len(data))
		}
		c.Events(1)
		if len(w.live) > 0 && r.Intn(5) < 2 {
			x := w.live[r.Intn(len(w.live))]
			if hit != nil && x != hit && x.trace == hit.trace {
				x.sinceHit = true
			}
			w.end(x)
			if x == hit {
				over, overAt = true, time.Now()
			}
		} else {
			x := w.start()
			if hit == nil && q.matches(x.s.Func(), x.full, x.trace.Id()) {
				hit = x
				c.Logf("that matches")
				if q.kind == "remote" {
					over, overAt = true, time.Now()
				}
			}
		}
		synctest.Wait()
	}
	synctest.Wait()
	data, _, _ := s.get()
	if !over {
		if returned.Load() {
			c.Fatalf("query %v returned without a match: %q", q.q, data)
		}
		w.marks(nil, false, false)
		c.Note("queries without a match", 1)
		if hit == nil {
			// make it match in the end
			last, full := w.reg.ScopeNamed("pk").FuncNamed("alpha"), "pk.alpha"
			for f := range q.known {
				last, full = f, w.every[f]
			}
			if q.re == nil || q.known != nil || q.re.MatchString(full) {
				ctx := context.Background()
				t := monkit.NewTrace(vh.Int64(r))
				if q.id != nil {
					t = monkit.NewTrace(*q.id)
				}
				exit := last.RemoteTrace(&ctx, 7, t)
				exit(nil)
				synctest.Wait()
				if !returned.Load() {
					c.Failf("query %v doesn't return after a match with %s", q.q, full)
				}
			}
		}
		return
	}
	if !returned.Load() {
		c.Fatalf("query %v didn't return: %q", q.q, data)
	}
	if !t1.Equal(overAt) {
		c.Failf("query %v returned at %v instead of %v", q.q, t1.Sub(t0), overAt.Sub(t0))
	}
	ka := int(overAt.Sub(t0) / every)
	if failAt > 0 && ka >= failAt {
		if qerr != bad {
			c.Failf("keep-alive failed but the query returned %v", qerr)
		}
		if s.flushE == nil && !keepAlives(data, failAt-1, q) && !(failAt == 1 && len(data) == 0) {
			c.Failf("writes around a failed keep-alive: %q", data)
		}
		w.marks(nil, false, false)
		c.Note("failed keep-alives", 1)
	} else {
		if qerr != nil {
			c.Failf("query %v returned %v", q.q, qerr)
		}
		var want []int64
		if q.kind != "remote" {
			<-refDone
			want = w.collected(hit)
		}
		verify(c, q, hit, want, data, ref, ka, ka)
		w.marks(hit, q.kind == "remote", w.hadCB(hit))
		c.Note("answers", 1)
		c.Note("keep-alives", int64(ka))
	}
	// nothing more happens afterwards
	for i := 0; i < 6; i++ {
		x := w.start()
		time.Sleep(every / 2)
		w.end(x)
	}
	synctest.Wait()
	after, _, _ := s.get()
	if !bytes.Equal(after, data) {
		c.Failf("query wrote after it returned: %q", after[len(data):])
	}
	for len(w.live) > 0 {
		w.end(w.live[len(w.live)-1])
	}
}

// hadCB tells whether the callback was on the trace before its span started.
func (w *world) hadCB(x *sp) bool { return x.trace.Get(present.SampledCBKey) != nil }

// keepAlives tells whether the data is n newlines, possibly after the start of
// the document.
func keepAlives(data []byte, n int, q *query) bool {
	s := strings.TrimRight(string(data), "\n")
	if q.kind == "json" || (q.kind == "remote" && q.viz == "") {
		return s == "" && len(data) == n
	}
	if n == 0 {
		return true
	}
	return len(data)-len(s) >= n && len(data)-len(s) <= n+1 && (s == "" || s[0] == '<')
}

// together lets the answer come at the very moment of a keep-alive, or while
// a keep-alive is being written.
func together(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	fn := reg.ScopeNamed("pk").FuncNamed("alpha")
	kind := []string{"svg", "json", "remote"}[r.Intn(3)]
	f, _, err := present.FromRequest(reg, "/trace/"+kind, url.Values{"regex": {"alpha"}})
	if err != nil {
		c.Fatalf("%v", err)
	}
	k := 1 + r.Intn(3)
	s := &sink{c: c}
	var inWrite = make(chan struct{}, 100)
	var free atomic.Bool
	busy := r.Intn(2) == 0
	if busy {
		s.hold = func(p []byte) {
			if len(p) > 0 && strings.HasSuffix(string(p), "\n") && len(p) < 60 {
				select {
				case inWrite <- struct{}{}:
				default:
				}
				for !free.Load() {
					runtime.Gosched()
				}
			}
		}
	}
	var dest io.Writer = s
	if r.Intn(2) == 0 {
		dest = flusher{s}
	}
	end := make(chan error, 1)
	t0 := time.Now()
	go func() { end <- f(dest) }()
	var ref []*collect.FinishedSpan
	refDone := make(chan struct{})
	go func() {
		defer close(refDone)
		ref, _ = collect.WatchForSpans(context.Background(), reg, func(s *monkit.Span) bool { return true })
	}()
	synctest.Wait()
	ctx := context.Background()
	if !busy {
		free.Store(true)
	}
	var exit func(*error)
	var x *sp
	if busy {
		// let the earlier ones pass
		for i := 1; i < k; i++ {
			<-inWrite
			free.Store(true)
			time.Sleep(time.Second)
			free.Store(false)
		}
		exit = fn.Task(&ctx)
		if kind == "remote" {
			// the answer is due while no keep-alive is under way
			free.Store(true)
		} else {
			<-inWrite
			exit(nil)
			for i := r.Intn(50); i > 0; i-- {
				runtime.Gosched()
			}
			free.Store(true)
		}
	} else {
		time.Sleep(time.Duration(k-1)*every + every/2)
		if kind == "remote" {
			time.Sleep(every / 2)
			exit = fn.Task(&ctx)
		} else {
			exit = fn.Task(&ctx)
			time.Sleep(every / 2)
			exit(nil)
		}
	}
	x = &sp{s: monkit.SpanFromCtx(ctx)}
	x.trace = x.s.Trace()
	qerr := <-end
	if qerr != nil {
		c.Failf("query returned %v", qerr)
	}
	data, _, _ := s.get()
	at := time.Since(t0)
	q := &query{kind: kind}
	if kind == "remote" {
		exit(nil)
	}
	<-refDone
	verify(c, q, x, []int64{x.s.Id()}, data, ref, k, k-1)
	time.Sleep(3 * every)
	synctest.Wait()
	if after, _, _ := s.get(); !bytes.Equal(after, data) {
		c.Failf("query wrote after it returned: %q", after)
	}
	c.Events(1)
	c.Sig(kind, k, busy, at, len(data))
}

// failing has every write of an answer fail in turn, those made before
// anything is waited for among them.
func failing(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	fn := reg.ScopeNamed("pk").FuncNamed("alpha")
	kind := []string{"svg", "json", "remote", "remote"}[r.Intn(4)]
	q := url.Values{"regex": {"alpha"}}
	if kind == "remote" && r.Intn(2) == 0 {
		q.Set("viz", "viz.example/x")
	}
	begins := kind == "svg" || q.Get("viz") != ""
	unbuffered := r.Intn(2) == 0
	// one query at a time; it waits this long
	wait := time.Duration(r.Intn(2))*every + time.Second
	one := func(w io.Writer) (err error, at time.Duration) {
		f, _, err := present.FromRequest(reg, "trace/"+kind, q)
		if err != nil {
			c.Fatalf("%v", err)
		}
		// the same without any buffer
		switch direct := func(s *monkit.Span) bool { return s.Func() == fn }; {
		case unbuffered && kind == "svg":
			f = func(w io.Writer) error { return present.TraceQuerySVG(reg, w, direct) }
		case unbuffered && kind == "json":
			f = func(w io.Writer) error { return present.TraceQueryJSON(reg, w, direct) }
		}
		end := make(chan struct{})
		t0 := time.Now()
		go func() {
			defer close(end)
			err = f(w)
			at = time.Since(t0)
		}()
		time.Sleep(wait)
		synctest.Wait()
		ctx := context.Background()
		exit := fn.Task(&ctx, "an argument")
		inner := fn.Task(&ctx)
		inner(nil)
		exit(nil)
		<-end
		return err, at
	}
	ok := &pw.FailWriter{AtWrite: -1, AtByte: -1}
	if err, at := one(ok); err != nil || at != wait {
		c.Fatalf("%v after %v although nothing fails", err, at)
	}
	for i := 0; i < ok.Writes; i++ {
		for _, then := range []bool{false, true} {
			bad := errors.New("broken pipe")
			w := &pw.FailWriter{AtWrite: i, AtByte: -1, Then: then, Err: bad}
			err, at := one(w)
			// what comes first may be sent at once or later
			want := wait
			if i < 2 && (at == 0 && i == 0 && begins || at == every) {
				want = at
			}
			if err != bad || at != want {
				c.Fatalf("%s %v: write %d of %d fails (later ones succeed: %v), the query returns %v after %v, not %v", kind, q, i, ok.Writes, then, err, at, want)
			}
			n := w.After
			time.Sleep(5 * every)
			synctest.Wait()
			if w.After != n {
				c.Fatalf("writes after the query returned")
			}
			c.Events(1)
			c.Note("answers with failing writes", 1)
		}
	}
	c.Sig(kind, q.Encode(), wait, ok.Writes, unbuffered)
	c.Logf("%d writes", ok.Writes)
}

// racing starts many matching spans at once.
func racing(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	fn := reg.ScopeNamed("pk").FuncNamed("alpha")
	other := reg.ScopeNamed("pk").FuncNamed("beta")
	kind := []string{"json", "remote", "remote"}[r.Intn(3)]
	f, _, err := present.FromRequest(reg, "/trace/"+kind, url.Values{"regex": {"alpha"}})
	if err != nil {
		c.Fatalf("%v", err)
	}
	s := &sink{c: c}
	end := make(chan error, 1)
	go func() { end <- f(s) }()
	synctest.Wait()
	var clock int64
	var mtx sync.Mutex
	type rec struct {
		id, trace int64
		t         *monkit.Trace
		from, to  int64
	}
	var recs []rec
	calls := map[*monkit.Trace]int{}
	n := 2 + r.Intn(6)
	var go1 = make(chan struct{})
	var ids []string
	for i := 0; i < n; i++ {
		seed := r.Int63()
		i := i
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			t := monkit.NewTrace(int64(1000 + i))
			t.Set(present.SampledCBKey, func(*monkit.Trace) {
				mtx.Lock()
				calls[t]++
				mtx.Unlock()
			})
			<-go1
			for k := 0; k < 3; k++ {
				ctx := context.Background()
				for j := r.Intn(3); j > 0; j-- {
					runtime.Gosched()
				}
				exit0 := other.RemoteTrace(&ctx, 5, t)
				a := atomic.AddInt64(&clock, 1)
				exit := fn.Task(&ctx)
				b := atomic.AddInt64(&clock, 1)
				x := monkit.SpanFromCtx(ctx)
				mtx.Lock()
				recs = append(recs, rec{x.Id(), t.Id(), t, a, b})
				ids = append(ids, fmt.Sprint(i))
				mtx.Unlock()
				exit(nil)
				exit0(nil)
			}
		})
	}
	close(go1)
	c.Wait()
	if err := <-end; err != nil {
		c.Fatalf("query returned %v", err)
	}
	data, _, _ := s.get()
	// which of them was it
	ok := func(x rec) bool {
		for _, y := range recs {
			if y.to < x.from {
				return false
			}
		}
		return true
	}
	found := false
	if kind == "json" {
		got, err := spanIDs(kind, data)
		if err != nil || len(got) == 0 {
			c.Fatalf("%v: %q", err, data)
		}
		for _, x := range recs {
			for _, id := range got {
				if x.id == id {
					found = found || ok(x)
				}
			}
		}
		if len(got) != 1 {
			c.Failf("%d spans: %q", len(got), data)
		}
		for t, k := range calls {
			c.Failf("callback of %d called %d times", t.Id(), k)
		}
	} else {
		var x struct {
			TraceId int64 `json:"trace_id"`
		}
		if err := json.Unmarshal(data, &x); err != nil {
			c.Fatalf("%v: %q", err, data)
		}
		total := 0
		for _, y := range recs {
			if y.trace == x.TraceId {
				found = found || ok(y)
				if calls[y.t] != 1 {
					c.Failf("callback of the matched trace called %d times", calls[y.t])
				}
				if v, _ := y.t.Get(present.SampledKey).(bool); !v {
					c.Failf("matched trace not marked")
				}
			} else if y.t.Get(present.SampledKey) != nil {
				c.Failf("another trace marked")
			}
		}
		for _, k := range calls {
			total += k
		}
		if total != 1 {
			c.Failf("%d sampling callbacks called", total)
		}
	}
	if !found {
		c.Failf("answer %q isn't for the first of %v", data, recs)
	}
	c.Sig(kind, strings.Join(ids, ""))
	c.Events(len(recs))
}

type listener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.closed) }); return nil }
func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

// overHTTP asks through a real HTTP server and client that are connected in
// memory, and watches what reaches the client when.
func overHTTP(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	fn := reg.ScopeNamed("pk").FuncNamed("alpha")
	l := &listener{ch: make(chan net.Conn), closed: make(chan struct{})}
	gone := make(chan time.Time, 1)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		present.HTTP(reg).ServeHTTP(w, req)
		gone <- time.Now()
	})}
	go srv.Serve(l)
	tr := &http.Transport{DialContext: func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		l.ch <- b
		return a, nil
	}}
	cl := &http.Client{Transport: tr}
	kind := []string{"svg", "json", "remote", "remote"}[r.Intn(4)]
	q := &query{kind: kind, q: url.Values{"regex": {"alp"}}}
	if kind == "remote" && r.Intn(2) == 0 {
		q.viz = "http://viz/"
		q.q.Set("viz", q.viz)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "GET", "http://host/trace/"+kind+"?"+q.q.Encode(), nil)
	var mtx sync.Mutex
	var data []byte
	var at []time.Time
	done := make(chan error, 1)
	t0 := time.Now()
	go func() {
		resp, err := cl.Do(req)
		if err != nil {
			done <- err
			return
		}
		if resp.StatusCode != 200 {
			c.Failf("status %d", resp.StatusCode)
		}
		b := make([]byte, 1)
		for {
			n, err := resp.Body.Read(b)
			if n > 0 {
				mtx.Lock()
				data = append(data, b[0])
				at = append(at, time.Now())
				mtx.Unlock()
			}
			if err != nil {
				resp.Body.Close()
				if err == io.EOF {
					err = nil
				}
				done <- err
				return
			}
		}
	}()
	synctest.Wait()
	k := r.Intn(5)
	time.Sleep(time.Duration(k)*every + time.Duration(1+r.Intn(int(every)-2)))
	synctest.Wait()
	mtx.Lock()
	got, times := append([]byte(nil), data...), append([]time.Time(nil), at...)
	mtx.Unlock()
	if !keepAlives(got, k, q) {
		c.Failf("client received %q by the time of %d keep-alives", got, k)
	} else {
		for i := 0; i < k; i++ {
			w := t0.Add(time.Duration(k-i) * every)
			if a := times[len(times)-1-i]; !a.Equal(w) {
				c.Failf("keep-alive %d arrived after %v", k-i, a.Sub(t0))
			}
		}
	}
	c.Sig(kind, q.viz, k)
	c.Events(k + 1)
	if r.Intn(3) == 0 {
		// the client goes away, the query notices
		cancel()
		tr.CloseIdleConnections()
		<-done
		time.Sleep(20 * every)
		synctest.Wait()
		select {
		case <-gone:
			c.Note("clients that left", 1)
		default:
			c.Failf("query goes on 10 minutes after its client left")
			x := context.Background()
			fn.Task(&x)(nil)
		}
		l.Close()
		return
	}
	var ref []*collect.FinishedSpan
	refDone := make(chan struct{})
	go func() {
		defer close(refDone)
		ref, _ = collect.WatchForSpans(context.Background(), reg, func(s *monkit.Span) bool { return true })
	}()
	synctest.Wait()
	sctx := context.Background()
	exit := fn.Task(&sctx)
	x := &sp{s: monkit.SpanFromCtx(sctx)}
	x.trace = x.s.Trace()
	exit(nil)
	<-refDone
	synctest.Wait()
	select {
	case err := <-done:
		if err != nil {
			c.Failf("client got %v", err)
		}
		mtx.Lock()
		verify(c, q, x, []int64{x.s.Id()}, data, ref, k, k)
		mtx.Unlock()
	default:
		c.Failf("no answer after the match")
	}
	tr.CloseIdleConnections()
	srv.Close()
}

// callbacks has sampling callbacks that start spans, which may match and
// belong to any trace, that of the match included.
func callbacks(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	fns := []*monkit.Func{reg.ScopeNamed("pk").FuncNamed("alpha"), reg.ScopeNamed("pk").FuncNamed("beta")}
	type tr struct {
		t     *monkit.Trace
		cb    bool
		calls int
	}
	var traces []*tr
	ends := []func(*error){}
	start := func(x *tr, f *monkit.Func) {
		ctx := context.Background()
		ends = append(ends, f.RemoteTrace(&ctx, 5, x.t))
		if r.Intn(2) == 0 {
			ends = append(ends, fns[r.Intn(2)].Task(&ctx))
		}
		if r.Intn(2) == 0 {
			ends[len(ends)-1](nil)
			ends = ends[:len(ends)-1]
		}
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		x := &tr{t: monkit.NewTrace(vh.Int64(r)), cb: r.Intn(4) != 0}
		traces = append(traces, x)
		if !x.cb {
			continue
		}
		work := r.Intn(4)
		x.t.Set(present.SampledCBKey, func(got *monkit.Trace) {
			x.calls++
			if got != x.t {
				c.Failf("the callback got another trace")
			}
			for k := 0; k < work && x.calls < 5; k++ {
				y := x
				if r.Intn(3) == 0 {
					y = traces[r.Intn(len(traces))]
				}
				start(y, fns[r.Intn(2)])
			}
		})
	}
	q := url.Values{}
	want := traces[r.Intn(len(traces))]
	byID, byName := r.Intn(2) == 0, r.Intn(3) != 0
	if byID {
		q.Set("trace_id", fmt.Sprintf("%x", uint64(want.t.Id())))
	}
	if byName || !byID {
		byName = true
		q.Set("regex", "alpha")
	}
	// when this is asked for, a live span must not be the match
	start(want, fns[0])
	f, _, err := present.FromRequest(reg, "/trace/remote", q)
	if err != nil {
		c.Fatalf("%v", err)
	}
	s := &sink{c: c}
	end := make(chan error, 1)
	go func() { end <- f(s) }()
	synctest.Wait()
	var hit *tr
	for hit == nil {
		x, k := traces[r.Intn(len(traces))], r.Intn(2)
		if (!byID || x.t.Id() == want.t.Id()) && (!byName || k == 0) {
			hit = x
		}
		ctx := context.Background()
		fns[k].RemoteTrace(&ctx, 9, x.t)(nil)
	}
	synctest.Wait()
	select {
	case err := <-end:
		if err != nil {
			c.Fatalf("%v", err)
		}
	default:
		c.Fatalf("%v: no answer although a span matched", q)
	}
	for start(traces[0], fns[0]); len(ends) > 0; ends = ends[1:] {
		ends[0](nil)
	}
	data, _, _ := s.get()
	var got struct {
		ID int64 `json:"trace_id"`
	}
	if err := json.Unmarshal(bytes.TrimSpace(data), &got); err != nil || got.ID != hit.t.Id() {
		c.Fatalf("%v: answer %q, the trace is %d", q, data, hit.t.Id())
	}
	for i, x := range traces {
		v, _ := x.t.Get(present.SampledKey).(bool)
		n := 0
		if x == hit && x.cb {
			n = 1
		}
		if v != (x == hit) || x.calls != n {
			c.Fatalf("%v: trace %d was matched: %v, but is sampled: %v, its callback was called %d times", q, i, x == hit, v, x.calls)
		}
	}
	c.Sig(byID, byName, len(traces), hit.cb)
	c.Events(1 + hit.calls)
	c.Logf("%v: %q", q, data)
}

func TestCheck(t *testing.T) {
	vh.Bubble(t, "C21", func(h *vh.H) {
		h.Serial("timeline", h.N(1200), timeline)
		h.Conc("together", h.N(200), together)
		h.Conc("racing", h.N(150), racing)
		h.Serial("failing writes", h.N(16), failing)
		h.Serial("http", h.N(150), overHTTP)
		h.Serial("callbacks at work", h.N(200), callbacks)
	})
}
