package c23

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/vh"
)

// op is one thing a handler does.
type op struct {
	kind string
	code int
	data []byte
	k, v string
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d %q %q)", o.kind, o.code, o.data, o.k+o.v)
}

var codes = []int{200, 201, 204, 304, 301, 400, 404, 418, 500, 503, 599, 206, 299, 999, 100, 102, 103, 199}

func script(r *rand.Rand, panics bool) (ops []op) {
	n := r.Intn(7)
	style := r.Intn(360) // 0 to 2 are big ones
	if style == 0 {
		n = vh.Many(r, 200)
	}
	if style == 1 {
		for k := vh.Many(r, 300); k > 0; k-- {
			v := fmt.Sprint(k)
			if r.Intn(200) == 0 {
				v = strings.Repeat("v", vh.Many(r, 5000))
			}
			ops = append(ops, op{kind: "header", k: fmt.Sprint("X-Many", k), v: v})
		}
	}
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0:
			ops = append(ops, op{kind: "header", k: []string{"X-A", "X-B", "Content-Type", "x-lower"}[r.Intn(4)], v: []string{"1", "text/x", "a, b"}[r.Intn(3)]})
		case 1, 2:
			ops = append(ops, op{kind: "status", code: codes[r.Intn(len(codes))]})
		case 3, 4:
			d := make([]byte, []int{0, 1, 5, 3000}[r.Intn(4)])
			if style == 2 {
				d = make([]byte, vh.Many(r, 200000))
			}
			for j := range d {
				d[j] = byte('a' + r.Intn(26))
			}
			ops = append(ops, op{kind: "write", data: d})
		default:
			ops = append(ops, op{kind: "flush"})
		}
	}
	if panics && r.Intn(5) == 0 {
		ops = append(ops, op{kind: "panic"})
	}
	return ops
}

// sentStatus is the final status net/http sends for the script.
func sentStatus(ops []op) int {
	for _, o := range ops {
		switch o.kind {
		case "status":
			if o.code >= 200 || o.code == 101 {
				return o.code
			}
		case "write", "flush":
			return 200
		}
	}
	return 200
}

// known tells whether the recorded status is an instance of a finding that
// the existing tests pin.
func known(ops []op, got string) string {
	implicit := false
	lastInfo := ""
	for _, o := range ops {
		switch o.kind {
		case "status":
			s := fmt.Sprint(o.code)
			if implicit && got == s {
				return "status-after-write"
			}
			if o.code < 200 && o.code != 101 {
				lastInfo = s
			} else {
				return ""
			}
		case "write":
			implicit = true
		case "flush":
			if !implicit && lastInfo != "" && lastInfo == got {
				return "informational-only"
			}
			return ""
		}
	}
	if !implicit && lastInfo != "" && lastInfo == got {
		return "informational-only"
	}
	return ""
}

// flusherOf finds out whether flushing is possible.
func play(ops []op, w http.ResponseWriter, panicWith interface{}, note func(string)) {
	for _, o := range ops {
		switch o.kind {
		case "header":
			w.Header().Add(o.k, o.v)
		case "status":
			w.WriteHeader(o.code)
		case "write":
			n, err := w.Write(o.data)
			note(fmt.Sprintf("wrote %d %v", n, err))
		case "flush":
			f, ok := w.(http.Flusher)
			note(fmt.Sprintf("flusher %v", ok))
			if ok {
				f.Flush()
			}
		case "panic":
			panic(panicWith)
		}
	}
}

// raw records the calls that arrive at the original writer.
type raw struct {
	h     http.Header
	named bool // the response names trace and span, as documented
	calls []string
	short int
	err   error
}

func (w *raw) Header() http.Header { return w.h }
func (w *raw) WriteHeader(c int)   { w.calls = append(w.calls, fmt.Sprint("status ", c, w.hdr())) }

func (w *raw) hdr() http.Header {
	h := w.h.Clone()
	if w.named {
		h.Del("trace-id")
		h.Del("child-id")
	}
	return h
}
func (w *raw) Write(p []byte) (int, error) {
	w.calls = append(w.calls, fmt.Sprintf("write %q %v", p, w.hdr()))
	n := len(p)
	if n > w.short && w.err != nil {
		return w.short, w.err
	}
	return n, nil
}

type rawFlusher struct{ *raw }

func (w rawFlusher) Flush() { w.calls = append(w.calls, fmt.Sprint("flush ", w.hdr())) }

type finished struct {
	mtx   sync.Mutex
	spans []*monkit.Span
	anns  [][]monkit.Annotation
	errs  []error
	pan   []bool
}

func (f *finished) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, obsKey{}, s)
}

func (f *finished) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, at time.Time) {
	f.mtx.Lock()
	defer f.mtx.Unlock()
	f.spans = append(f.spans, s)
	f.anns = append(f.anns, s.Annotations())
	f.errs = append(f.errs, err)
	f.pan = append(f.pan, panicked)
}

func ann(as []monkit.Annotation, name string) (string, int) {
	v, n := "", 0
	for _, a := range as {
		if a.Name == name {
			v = a.Value
			n++
		}
	}
	return v, n
}

// traced adds headers that traces come with, good and bad ones, and tells
// whether they ask for a trace that the response names.
func traced(r *rand.Rand, h http.Header) (named bool) {
	if r.Intn(3) == 0 {
		return false
	}
	parent := ""
	switch r.Intn(6) {
	case 0:
		parent = fmt.Sprintf("00-%016x-%08x-%d", uint64(vh.Int64(r)), uint64(vh.Int64(r)), r.Intn(2))
	case 1:
		parent = fmt.Sprintf("00-%016x-%016x-01", uint64(vh.Int64(r)), uint64(vh.Int64(r)))
	case 2:
		parent = []string{"00-1-2", "01-1-2-01", "x", "00-1-2-zz", "00--2-01", "-", "00-1-2-01-x"}[r.Intn(7)]
	}
	if parent != "" {
		h.Set("traceparent", parent)
	}
	state := []string{"", "sampled=true", "vendor=x,sampled=true", "sampled=false", "vendor=1"}[r.Intn(5)]
	if state != "" {
		h.Set("tracestate", state)
	}
	if r.Intn(2) == 0 {
		h.Set("baggage", []string{"k=v", "k=v,l=w", "l=w", "k", "=", "k=%20=,k=2"}[r.Intn(6)])
	}
	return parent == "" && strings.Contains(state, "sampled=true")
}

type obsKey struct{}
type reqKey struct{}

func observed() (*monkit.Registry, *finished) {
	reg := monkit.NewRegistry()
	f := &finished{}
	reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpansCtx(f) })
	return reg, f
}

func recorded(c *vh.C, ops []op, got string, want int, what string) {
	if got == fmt.Sprint(want) {
		return
	}
	if k := known(ops, got); k != "" {
		c.Known(k, "%s: status %d was sent but %s recorded: %v", what, want, got, ops)
		return
	}
	c.Failf("%s: status %d was sent but %q recorded: %v", what, want, got, ops)
}

// calls compares what arrives at the original writer.
func calls(c *vh.C) {
	r := c.Rng
	for i := 0; i < 30; i++ {
		ops := script(r, true)
		flush := r.Intn(2) == 0
		short, werr := 0, error(nil)
		if r.Intn(4) == 0 {
			short, werr = r.Intn(4), errors.New("short")
		}
		mk := func() (http.ResponseWriter, *raw) {
			w := &raw{h: http.Header{"Preset": {"1"}}, short: short, err: werr}
			if flush {
				return rawFlusher{w}, w
			}
			return w, w
		}
		pv := interface{}(http.ErrAbortHandler)
		if r.Intn(2) == 0 {
			pv = "boom"
		}
		pw, pr := mk()
		var pnotes []string
		prec, ppan := vh.Catch(func() { play(ops, pw, pv, func(s string) { pnotes = append(pnotes, s) }) })

		reg, fin := observed()
		ww, wr := mk()
		var wnotes []string
		body := strings.NewReader("body")
		req := httptest.NewRequest("PUT", "http://host/some/path?x=y#z", body)
		req.Header.Set("X-In", "1")
		base, cancel := context.WithCancel(context.WithValue(context.Background(), reqKey{}, "mine"))
		if r.Intn(2) == 0 {
			var done func()
			base, done = context.WithDeadline(base, time.Now().Add(time.Hour+time.Duration(r.Intn(1000))))
			defer done()
		}
		req = req.WithContext(base)
		wr.named = traced(r, req.Header)
		var allowed []string
		if r.Intn(2) == 0 {
			allowed = append(allowed, "k")
		}
		if r.Intn(3) == 0 {
			req.Header.Set("x-cancel", "1")
		}
		headerWas := fmt.Sprint(req.Header)
		var ran int
		h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			ran++
			if q.Method != req.Method || q.URL.String() != req.URL.String() || q.Host != req.Host || q.RequestURI != req.RequestURI ||
				q.Proto != req.Proto || q.ContentLength != req.ContentLength || q.Body != req.Body || q.RemoteAddr != req.RemoteAddr ||
				fmt.Sprint(q.Header) != fmt.Sprint(req.Header) {
				c.Failf("handler sees another request: %v, %v", q, req)
			}
			ctx := q.Context()
			if ctx.Value(reqKey{}) != "mine" {
				c.Failf("context isn't derived from the request's")
			}
			if s := monkit.SpanFromCtx(ctx); s == nil || ctx.Value(obsKey{}) != interface{}(s) {
				c.Failf("context isn't what the observers returned")
			}
			if ctx.Err() != nil {
				c.Failf("context ended: %v", ctx.Err())
			}
			at, ok := ctx.Deadline()
			if at2, ok2 := base.Deadline(); ok != ok2 || !at.Equal(at2) {
				c.Failf("context's deadline %v %v, the request's %v %v", at, ok, at2, ok2)
			}
			if fmt.Sprint(q.Header) != headerWas {
				c.Failf("header %v was %s", q.Header, headerWas)
			}
			if q.Header.Get("x-cancel") != "" {
				cancel()
				if ctx.Err() == nil || ctx.Err() != base.Err() {
					c.Failf("cancellation doesn't arrive")
				}
				select {
				case <-ctx.Done():
				default:
					c.Failf("cancellation doesn't arrive")
				}
			}
			if _, ok := w.(http.Flusher); ok != flush {
				c.Failf("flusher %v, original %v", ok, flush)
			}
			play(ops, w, pv, func(s string) { wnotes = append(wnotes, s) })
		}), reg.ScopeNamed("srv"), allowed...)
		wrec, wpan := vh.Catch(func() { h.ServeHTTP(ww, req) })
		cancel()
		c.Sig(fmt.Sprint(ops), flush, short)
		c.Logf("%v flush %v", ops, flush)
		c.Events(len(ops))
		if ran != 1 {
			c.Failf("handler ran %d times", ran)
		}
		if wpan != ppan || wrec != prec {
			c.Failf("%v: panicked with %v (%v), unwrapped with %v (%v)", ops, wrec, wpan, prec, ppan)
		}
		if fmt.Sprint(wr.calls) != fmt.Sprint(pr.calls) || fmt.Sprint(wr.hdr()) != fmt.Sprint(pr.h) || (wr.h.Get("trace-id") != "" && wr.h.Get("child-id") != "") != wr.named {
			c.Failf("%v: calls %q %v, unwrapped %q %v", ops, wr.calls, wr.h, pr.calls, pr.h)
		}
		if fmt.Sprint(wnotes) != fmt.Sprint(pnotes) {
			c.Failf("%v: handler noticed %q, unwrapped %q", ops, wnotes, pnotes)
		}
		if len(fin.spans) != 1 || fin.errs[0] != nil && !ppan || fin.pan[0] != ppan {
			c.Fatalf("%v: %d spans finished, %v %v", ops, len(fin.spans), fin.errs, fin.pan)
		}
		uri, n := ann(fin.anns[0], "http.uri")
		if uri != req.RequestURI || n != 1 {
			c.Failf("http.uri %q %d times, want %q", uri, n, req.RequestURI)
		}
		if !ppan {
			code, n := ann(fin.anns[0], "http.responsecode")
			if n != 1 {
				c.Failf("http.responsecode %d times", n)
			}
			eff := ops
			if !flush {
				eff = nil
				for _, o := range ops {
					if o.kind != "flush" {
						eff = append(eff, o)
					}
				}
			}
			recorded(c, eff, code, sentStatus(eff), "fake writer")
		}
		// the wrapper by itself
		aw, _ := mk()
		wrapped, code := mhttp.Wrap(aw)
		vh.Catch(func() { play(ops, wrapped, pv, func(string) {}) })
		eff := []op{}
		for _, o := range ops {
			if flush || o.kind != "flush" {
				eff = append(eff, o)
			}
		}
		recorded(c, eff, fmt.Sprint(code()), sentStatus(eff), "Wrap")
	}
}

type reply struct {
	status   int
	header   string
	body     string
	err      string
	early    string // what arrived before the handler went on after a flush
	infos    string
	trailers string
}

// servers compares what real clients receive from real servers.
func servers(c *vh.C) {
	r := c.Rng
	reg, fin := observed()
	var mtx sync.Mutex
	var ops []op
	var gate chan struct{}
	handler := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mtx.Lock()
		o, g := ops, gate
		mtx.Unlock()
		if b, _ := io.ReadAll(q.Body); string(b) != "request body" {
			c.Failf("body %q", b)
		}
		w.Header().Set("Date", "x")
		w.Header().Set("Trailer", "X-T")
		play(o, w, http.ErrAbortHandler, func(string) {})
		if g != nil {
			<-g
		}
		w.Header().Set("X-T", "trailing")
	})
	quiet := func(h http.Handler) *httptest.Server {
		s := httptest.NewUnstartedServer(h)
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.Start()
		return s
	}
	plain := quiet(handler)
	defer plain.Close()
	wrapped := quiet(mhttp.TraceHandler(handler, reg.ScopeNamed("srv")))
	defer wrapped.Close()
	ask := func(url string, o []op, held bool, add http.Header, named bool) (p reply) {
		// a connection of its own: one that the server is just closing, after
		// an earlier panic, would fail the request before any handler sees it
		tr := &http.Transport{DisableCompression: true}
		defer tr.CloseIdleConnections()
		cl := &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		g := make(chan struct{})
		mtx.Lock()
		ops, gate = o, nil
		if held {
			gate = g
		}
		mtx.Unlock()
		var once sync.Once
		open := func() { once.Do(func() { close(g) }) }
		defer open()
		q, _ := http.NewRequest("POST", url+"/p", strings.NewReader("request body"))
		for k, v := range add {
			q.Header[k] = v
		}
		resp, err := cl.Do(q)
		if err != nil {
			p.err = "failed"
			return p
		}
		defer resp.Body.Close()
		p.status = resp.StatusCode
		if held {
			// flushed data has to arrive while the handler still runs
			b := make([]byte, flushedBytes(o))
			n, _ := io.ReadFull(resp.Body, b)
			p.early = string(b[:n])
			open()
		}
		body, err := io.ReadAll(resp.Body)
		p.body = string(body)
		if err != nil {
			p.err = "body failed"
		}
		if named {
			resp.Header.Del("trace-id")
			resp.Header.Del("child-id")
		}
		p.header = headers(resp.Header)
		p.trailers = fmt.Sprint(resp.Trailer)
		return p
	}
	for i := 0; i < 10; i++ {
		o := script(r, true)
		for len(o) > 0 && hasCode(o, 999, 199, 100) {
			o = script(r, true)
		}
		held := len(o) > 0 && o[len(o)-1].kind == "flush"
		fin.mtx.Lock()
		before := len(fin.spans)
		fin.mtx.Unlock()
		add := http.Header{}
		named := traced(r, add)
		a := ask(plain.URL, o, held, add, false)
		b := ask(wrapped.URL, o, held, add, named)
		c.Sig(fmt.Sprint(o))
		c.Logf("%v", o)
		c.Events(len(o))
		if a != b {
			c.Failf("%v: client got %+v, unwrapped %+v", o, b, a)
		}
		for k := 0; k < 5000; k++ {
			fin.mtx.Lock()
			n := len(fin.spans)
			fin.mtx.Unlock()
			if n > before {
				break
			}
			time.Sleep(time.Millisecond)
		}
		fin.mtx.Lock()
		if len(fin.spans) != before+1 {
			c.Failf("%v: %d spans", o, len(fin.spans)-before)
		} else if code, n := ann(fin.anns[before], "http.responsecode"); n == 1 && a.status != 0 {
			recorded(c, o, code, a.status, "server")
		} else if n != 1 && !panics(o) {
			c.Failf("%v: no status recorded", o)
		}
		fin.mtx.Unlock()
	}
}

func panics(o []op) bool { return len(o) > 0 && o[len(o)-1].kind == "panic" }

func hasCode(o []op, codes ...int) bool {
	for _, x := range o {
		for _, k := range codes {
			if x.kind == "status" && x.code == k {
				return true
			}
		}
	}
	return false
}

// flushedBytes is how much of the body is sure to be flushed.
func flushedBytes(ops []op) (n int) {
	if s := sentStatus(ops); s == 204 || s == 304 {
		return 0
	}
	for _, o := range ops {
		n += len(o.data)
	}
	return n
}

func headers(h http.Header) string {
	var l []string
	for k, v := range h {
		l = append(l, fmt.Sprint(k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

type client func(*http.Request) (*http.Response, error)

func (f client) Do(r *http.Request) (*http.Response, error) { return f(r) }

// clients compares what traced requests return.
func clients(c *vh.C) {
	r := c.Rng
	for i := 0; i < 30; i++ {
		reg, fin := observed()
		var resp *http.Response
		var err error
		if r.Intn(4) != 0 {
			resp = &http.Response{StatusCode: codes[r.Intn(len(codes))], Body: io.NopCloser(bytes.NewReader([]byte("x")))}
		}
		if resp == nil || r.Intn(4) == 0 {
			err = vh.NewErr(r)
		}
		panics := r.Intn(6) == 0
		target := []string{"http://host/path?q=1&b=%20", "https://u:p@host:1/a%2Fb#frag", "http://h", "/rel"}[r.Intn(4)]
		req, e := http.NewRequest([]string{"GET", "POST", "DELETE", "M-SEARCH"}[r.Intn(4)], target, strings.NewReader("zz"))
		if e != nil {
			c.Fatalf("%v", e)
		}
		want := req.URL.String()
		req.Header.Set("X", "1")
		// requests that clients accept, or refuse with an error
		if r.Intn(6) == 0 {
			req.Header = nil
		}
		if r.Intn(10) == 0 {
			req.URL, want = nil, ""
		}
		desc := func(q *http.Request) string {
			h := q.Header.Clone()
			h.Del("traceparent")
			return fmt.Sprint(q.Method, q.URL, len(h), h["X"], q.ContentLength, q.Host)
		}
		before := desc(req)
		ctx := context.Background()
		carries := false
		if r.Intn(2) == 0 {
			// within another call, sampled or not
			t := monkit.NewTrace(vh.Int64(r))
			if r.Intn(2) == 0 {
				t.Set(present.SampledKey, true)
				carries = true
			}
			defer reg.ScopeNamed("outer").FuncNamed("f").RemoteTrace(&ctx, vh.Int64(r), t)(nil)
		}
		n := 0
		var gr *http.Response
		var ge error
		rec, pan := vh.Catch(func() {
			gr, ge = mhttp.TraceRequest(ctx, reg.ScopeNamed("cl"), client(func(q *http.Request) (*http.Response, error) {
				n++
				if q != req || desc(q) != before || (q.Header.Get("traceparent") != "") != carries {
					c.Failf("another request: %v", q)
				}
				if panics {
					panic("boom")
				}
				return resp, err
			}), req)
		})
		c.Sig(target, req.Method, req.URL != nil, req.Header != nil, resp != nil, err != nil, panics, i)
		c.Events(1)
		if n != 1 {
			c.Failf("client called %d times", n)
		}
		if pan != panics || (panics && rec != "boom") {
			c.Failf("panic %v %v", rec, pan)
		}
		if !panics && (gr != resp || ge != err) {
			c.Failf("returned %v %v instead of %v %v", gr, ge, resp, err)
		}
		if len(fin.spans) != 1 {
			c.Fatalf("%d spans", len(fin.spans))
		}
		if fin.spans[0].Func().FullName() != "cl."+req.Method {
			c.Failf("span of %s", fin.spans[0].Func().FullName())
		}
		if fin.pan[0] != panics || (!panics && fin.errs[0] != err) {
			c.Failf("span ended with %v %v", fin.errs[0], fin.pan[0])
		}
		if uri, n := ann(fin.anns[0], "http.uri"); uri != want || n != 1 && req.URL != nil {
			c.Failf("http.uri %q (%d) instead of %q", uri, n, want)
		}
		code, k := ann(fin.anns[0], "http.responsecode")
		if !panics && err == nil && (k != 1 || code != fmt.Sprint(resp.StatusCode)) {
			c.Failf("http.responsecode %q (%d) instead of %d", code, k, resp.StatusCode)
		}
		if (panics || resp == nil) && k != 0 {
			c.Failf("http.responsecode %q without response", code)
		}
	}
}

// parallel has many requests in flight at once, each with its own status.
func parallel(c *vh.C) {
	r := c.Rng
	reg, fin := observed()
	h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var code int
		fmt.Sscan(q.URL.Query().Get("code"), &code)
		w.Header().Set("X-Code", fmt.Sprint(code))
		w.WriteHeader(code)
		bw := bufio.NewWriter(w)
		fmt.Fprintf(bw, "body of %d", code)
		bw.Flush()
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
	}), reg.ScopeNamed("srv"))
	n := 2 + r.Intn(6)
	for g := 0; g < n; g++ {
		seed := r.Int63()
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < 5; i++ {
				code := 200 + r.Intn(400)
				rec := httptest.NewRecorder()
				h.ServeHTTP(rec, httptest.NewRequest("GET", fmt.Sprintf("/x?code=%d", code), nil))
				if rec.Code != code || rec.Body.String() != fmt.Sprintf("body of %d", code) || !rec.Flushed || rec.Header().Get("X-Code") != fmt.Sprint(code) {
					c.Failf("got %d %q, want %d", rec.Code, rec.Body.String(), code)
				}
			}
		})
	}
	c.Wait()
	var order []string
	for i := range fin.spans {
		uri, _ := ann(fin.anns[i], "http.uri")
		code, _ := ann(fin.anns[i], "http.responsecode")
		order = append(order, code)
		if uri != "/x?code="+code {
			c.Failf("request %s recorded with status %s", uri, code)
		}
	}
	if len(fin.spans) != n*5 {
		c.Failf("%d spans for %d requests", len(fin.spans), n*5)
	}
	c.Sig(order)
	c.Events(n * 5)
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C23")
	h.Seq("calls", h.N(500), calls)
	h.Seq("servers", h.N(200), servers)
	h.Seq("clients", h.N(200), clients)
	h.Conc("parallel", h.N(80), parallel)
	h.Finish()
}
