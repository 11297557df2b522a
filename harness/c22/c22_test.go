package c22

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/textproto"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/vh"
)

func ref(v int64) *int64 { return &v }

func show(p *int64) string {
	if p == nil {
		return "none"
	}
	return strconv.FormatUint(uint64(*p), 16)
}

func id(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Uint64())
	case 1:
		return int64(1) << uint(r.Intn(64))
	case 2:
		return -(int64(1) << uint(r.Intn(64)))
	default:
		return vh.Int64(r)
	}
}

// roundtrip writes any information to headers and reads it back.
func roundtrip(c *vh.C) {
	r := c.Rng
	for i := 0; i < 200; i++ {
		in := mhttp.TraceInfo{Sampled: r.Intn(2) == 0}
		if r.Intn(8) != 0 {
			in.TraceId = ref(id(r))
		}
		if r.Intn(8) != 0 {
			in.ParentId = ref(id(r))
		}
		var allowed []string
		if r.Intn(2) == 0 {
			in.Baggage = map[string]string{}
			for k := r.Intn(4); k > 0; k-- {
				key := []string{"k", "key", "k2", "K", "a.b"}[r.Intn(5)]
				in.Baggage[key] = []string{"v", "", "a=b", "x y", "1", "é"}[r.Intn(6)]
			}
			for k := r.Intn(4); k > 0; k-- {
				allowed = append(allowed, []string{"k", "key", "k2", "zz", ""}[r.Intn(5)])
			}
			if r.Intn(60) == 0 {
				// very many and very long ones
				for k := vh.Many(r, 1000); k > 0; k-- {
					key := fmt.Sprint("many", k)
					if r.Intn(60) == 0 {
						key = strings.Repeat("x", vh.Many(r, 20000)) + key
					}
					in.Baggage[key] = fmt.Sprint(k, strings.Repeat("v", r.Intn(3)))
					if r.Intn(60) == 0 {
						in.Baggage[key] += strings.Repeat("y=", vh.Many(r, 20000))
					}
					allowed = append(allowed, key)
				}
			}
		}
		var hd interface {
			mhttp.HeaderGetter
			mhttp.HeaderSetter
		} = http.Header{}
		if r.Intn(2) == 0 {
			hd = textproto.MIMEHeader{}
		}
		in.SetHeader(hd)
		out := mhttp.TraceInfoFromHeader(hd, allowed...)
		c.Sig(show(in.TraceId), show(in.ParentId), in.Sampled)
		c.Logf("%s %s %v: %v", show(in.TraceId), show(in.ParentId), in.Sampled, hd)
		if in.TraceId != nil && in.ParentId != nil {
			if show(out.TraceId) != show(in.TraceId) || show(out.ParentId) != show(in.ParentId) || out.Sampled != in.Sampled {
				c.Failf("%s %s %v became %s %s %v through %v", show(in.TraceId), show(in.ParentId), in.Sampled,
					show(out.TraceId), show(out.ParentId), out.Sampled, hd)
			}
			for k, v := range in.Baggage {
				ok := false
				for _, a := range allowed {
					ok = ok || a == k
				}
				got, has := out.Baggage[k]
				if has != ok || (has && got != v) {
					c.Failf("baggage %.300q=%.300q, %d allowed, became %.300q (%v)", k, v, len(allowed), got, has)
				}
			}
		} else if out.TraceId != nil || out.ParentId != nil || out.Sampled != in.Sampled {
			c.Failf("%s %s %v became %s %s %v through %v", show(in.TraceId), show(in.ParentId), in.Sampled,
				show(out.TraceId), show(out.ParentId), out.Sampled, hd)
		}
		for k := range out.Baggage {
			if _, ok := in.Baggage[k]; !ok {
				c.Failf("baggage %q invented", k)
			}
		}
		c.Events(1)
	}
}

type getter map[string]string

func (g getter) Get(k string) string { return g[strings.ToLower(k)] }

// number is the meaning of a header part.
func number(s string) (v uint64, ok bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte("0123456789abcdef", s[i]|32)
		if d < 0 || (s[i] < '0') || (s[i] > '9' && s[i] < 'A') {
			return 0, false
		}
		if v>>60 != 0 {
			return 0, false
		}
		v = v<<4 | uint64(d)
	}
	return v, true
}

func part(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("%032x", r.Uint64())
	case 2:
		return fmt.Sprintf("1%032x", r.Uint64())
	case 3:
		return fmt.Sprintf("%X", r.Uint64())
	case 4:
		return "0x" + fmt.Sprintf("%x", r.Uint32())
	case 5:
		return "+1"
	case 6:
		return " 1"
	case 7:
		return "g1"
	case 8:
		return "1_0"
	case 9:
		return vh.Nasty(r)
	default:
		return fmt.Sprintf("%016x", r.Uint64()>>uint(r.Intn(64)))
	}
}

// parse reads headers of every kind, mostly wrong ones.
func parse(c *vh.C) {
	r := c.Rng
	for i := 0; i < 200; i++ {
		parts := []string{"00", fmt.Sprintf("%016x", r.Uint64()), fmt.Sprintf("%016x", r.Uint64()), []string{"00", "01", "0", "1", "03", "02", "ff", "fe", "100", "101"}[r.Intn(10)]}
		switch r.Intn(8) {
		case 0:
			parts[r.Intn(4)] = part(r)
		case 1:
			parts[r.Intn(4)] = part(r)
			parts[r.Intn(4)] = part(r)
		case 2:
			parts[0] = []string{"01", "ff", "0", "000", "fe", "00 "}[r.Intn(6)]
		case 3:
			parts = parts[:r.Intn(4)]
		case 4:
			parts = append(parts, part(r))
		case 5:
			parts[3] = part(r)
		}
		g := getter{"traceparent": strings.Join(parts, "-")}
		if r.Intn(8) == 0 {
			delete(g, "traceparent")
		}
		if r.Intn(2) == 0 {
			g["tracestate"] = []string{"sampled=true", "a=b,sampled=true", "sampled=true,x=y", "sampled=false", "sampled", "a=b", "sampled=tru", "=true"}[r.Intn(8)]
		}
		if r.Intn(3) == 0 {
			g["baggage"] = []string{"k=v", "k=v,k2=v2", "x=y,k=1,k=2", "k", "=", ",", "k2=a=b,,k"}[r.Intn(7)]
		}
		out := mhttp.TraceInfoFromHeader(g, "k", "k2")
		tp := g["traceparent"]
		p := strings.Split(tp, "-")
		valid := len(p) == 4
		var n [4]uint64
		for j := 0; j < 4 && valid; j++ {
			n[j], valid = number(p[j])
		}
		valid = valid && n[0] == 0
		c.Sig(fmt.Sprint(g))
		c.Logf("%q", g)
		c.Events(1)
		got := fmt.Sprintf("%s %s %v %v", show(out.TraceId), show(out.ParentId), out.Sampled, len(out.Baggage) > 0)
		switch {
		case tp == "":
			want := strings.Contains(g["tracestate"], "sampled=true")
			if got != fmt.Sprintf("none none %v false", want) {
				c.Failf("%q: %s", g, got)
			}
		case !valid:
			if got != "none none false false" {
				c.Failf("invalid %q is used: %s", g, got)
			}
		default:
			want := fmt.Sprintf("%x %x %v %v", n[1], n[2], n[3]&1 == 1, strings.Contains(g["baggage"], "k=") || strings.Contains(g["baggage"], "k2="))
			if got != want {
				c.Failf("%q: %s, want %s", g, got, want)
			}
			bag := map[string]string{}
			for _, kv := range strings.Split(g["baggage"], ",") {
				if j := strings.IndexByte(kv, '='); j >= 0 && (kv[:j] == "k" || kv[:j] == "k2") {
					bag[kv[:j]] = kv[j+1:]
				}
			}
			if fmt.Sprint(bag) != fmt.Sprint(out.Baggage) {
				c.Failf("%q: baggage %q, want %q", g, out.Baggage, bag)
			}
		}
	}
}

// seen is what an observer noticed about a span.
type seen struct {
	mtx  sync.Mutex
	anns map[int64][]string
}

func (s *seen) Start(*monkit.Span) {}
func (s *seen) Finish(sp *monkit.Span, err error, panicked bool, at time.Time) {
	var l []string
	for _, a := range sp.Annotations() {
		l = append(l, a.Name+"="+a.Value)
	}
	sort.Strings(l)
	s.mtx.Lock()
	s.anns[sp.Id()] = l
	s.mtx.Unlock()
}

func observed() (*monkit.Registry, *seen) {
	reg := monkit.NewRegistry()
	s := &seen{anns: map[int64][]string{}}
	reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpans(s) })
	return reg, s
}

// served sends requests with any headers to the middleware.
func served(c *vh.C) {
	r := c.Rng
	reg, obs := observed()
	allowed := []string{"k", "user"}[:r.Intn(3)]
	var many []string
	if r.Intn(10) == 0 {
		for k := vh.Many(r, 400); k > 0; k-- {
			allowed = append(allowed, fmt.Sprintf("many%03d", k))
			v := fmt.Sprint(k)
			if r.Intn(100) == 0 {
				v = strings.Repeat("long", vh.Many(r, 3000))
			}
			many = append(many, allowed[len(allowed)-1]+"="+v)
		}
	}
	var got *monkit.Span
	var headersAtCall http.Header
	h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		got = monkit.SpanFromCtx(req.Context())
		headersAtCall = w.Header().Clone()
	}), reg.ScopeNamed("srv"), allowed...)
	for i := 0; i < 20; i++ {
		got = nil
		req := httptest.NewRequest("GET", "/p?q=1", nil)
		info := mhttp.TraceInfo{TraceId: ref(id(r)), ParentId: ref(id(r)), Sampled: r.Intn(2) == 0}
		bag := ""
		mode := r.Intn(4)
		switch mode {
		case 0, 1:
			info.SetHeader(req.Header)
		case 2:
			req.Header.Set("tracestate", "sampled=true")
		}
		if r.Intn(2) == 0 {
			bag = []string{"k=v", "user=u,k=w", "secret=s,k=v", "other=1"}[r.Intn(4)]
			if len(many) > 0 {
				bag += "," + strings.Join(many, ",")
			}
			req.Header.Set("baggage", bag)
		}
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, req)
		if got == nil {
			c.Fatalf("handler without span")
		}
		pid, hasP := got.ParentId()
		sampled, _ := got.Trace().Get(present.SampledKey).(bool)
		c.Sig(mode, show(info.TraceId), show(info.ParentId), info.Sampled, bag)
		c.Events(1)
		tid, cid := rec.Header().Get("trace-id"), rec.Header().Get("child-id")
		switch mode {
		case 0, 1:
			if got.Trace().Id() != *info.TraceId || !hasP || pid != *info.ParentId || sampled != info.Sampled {
				c.Failf("request with %s %s %v served in trace %x, parent %x (%v), sampled %v", show(info.TraceId), show(info.ParentId),
					info.Sampled, uint64(got.Trace().Id()), uint64(pid), hasP, sampled)
			}
			if tid != "" || cid != "" {
				c.Failf("response to a request with parent names trace %q and span %q", tid, cid)
			}
		case 2:
			if !sampled {
				c.Failf("forced sampling isn't sampled")
			}
			if tid != fmt.Sprintf("%x", got.Trace().Id()) || cid != fmt.Sprintf("%x", got.Id()) {
				c.Failf("response names %q and %q instead of %x and %x", tid, cid, got.Trace().Id(), got.Id())
			}
			if headersAtCall.Get("trace-id") != tid {
				c.Failf("headers set too late")
			}
		default:
			if sampled || tid != "" || cid != "" {
				c.Failf("request without headers: sampled %v, response names %q and %q", sampled, tid, cid)
			}
		}
		// annotations
		want := []string{"http.responsecode=200", "http.uri=/p?q=1"}
		if mode <= 1 {
			for _, kv := range strings.Split(bag, ",") {
				for _, a := range allowed {
					if strings.HasPrefix(kv, a+"=") {
						want = append(want, kv)
					}
				}
			}
		}
		sort.Strings(want)
		obs.mtx.Lock()
		anns := obs.anns[got.Id()]
		obs.mtx.Unlock()
		// the response code is annotated before the end of the span
		if fmt.Sprint(anns) != fmt.Sprint(want) {
			c.Failf("annotations %.600q, want %.600q (mode %d, baggage %.300q, allowed %.300q)", anns, want, mode, bag, allowed)
		}
	}
}

type client func(*http.Request) (*http.Response, error)

func (f client) Do(r *http.Request) (*http.Response, error) { return f(r) }

// sent looks at the headers of traced requests.
func sent(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("cl")
	sample := r.Intn(2) == 0
	setLate := r.Intn(4) == 0
	if r.Intn(3) == 0 {
		reg.ObserveTraces(func(t *monkit.Trace) {
			if sample {
				t.Set(present.SampledKey, true)
			}
		})
	}
	var last *http.Request
	for i := 0; i < 20; i++ {
		ctx := context.Background()
		var exits []func(*error)
		depth := r.Intn(4)
		var tr *monkit.Trace
		sampled := false
		for d := 0; d < depth; d++ {
			if d == 0 && r.Intn(2) == 0 {
				tr = monkit.NewTrace(id(r))
				exits = append(exits, scope.FuncNamed("f").RemoteTrace(&ctx, id(r), tr))
			} else {
				exits = append(exits, scope.FuncNamed("g").Task(&ctx))
			}
		}
		caller := monkit.SpanFromCtx(ctx)
		if caller != nil {
			tr = caller.Trace()
			switch {
			case r.Intn(2) == 0:
				tr.Set(present.SampledKey, true)
			case setLate:
				tr.Set(present.SampledKey, false)
			}
			sampled, _ = tr.Get(present.SampledKey).(bool)
		}
		req := httptest.NewRequest([]string{"GET", "PUT", "", "X"}[r.Intn(4)], "http://h/p", nil)
		again := last != nil && r.Intn(3) == 0
		if again {
			// the same request once more, from elsewhere
			req = last
			if r.Intn(2) == 0 {
				req = last.Clone(context.Background())
			}
			c.Note("requests sent again", 1)
		}
		last = req
		preset := r.Intn(4) == 0
		if preset {
			req.Header.Set("baggage", "k=v")
		}
		before := req.Header.Clone()
		var inner *monkit.Span
		_, err := mhttp.TraceRequest(ctx, scope, client(func(q *http.Request) (*http.Response, error) {
			if q != req {
				c.Failf("another request sent")
			}
			reg.AllSpans(func(s *monkit.Span) {
				if s.Func().ShortName() == req.Method {
					inner = s
				}
			})
			return &http.Response{StatusCode: 200}, nil
		}), req)
		if err != nil {
			c.Failf("%v", err)
		}
		if inner == nil {
			c.Fatalf("no span during the request")
		}
		if caller == nil {
			sampled, _ = inner.Trace().Get(present.SampledKey).(bool)
		}
		info := mhttp.TraceInfoFromHeader(req.Header)
		c.Sig(depth, sampled, preset, again, show(info.TraceId), show(info.ParentId))
		c.Events(1)
		if !sampled {
			// what a request sent again carries from before is its sender's
			if !again && fmt.Sprint(before) != fmt.Sprint(req.Header) {
				c.Failf("unsampled request carries %v, had %v", req.Header, before)
			}
		} else {
			from := inner.Id()
			if caller != nil {
				from = caller.Id()
			}
			if info.TraceId == nil || *info.TraceId != inner.Trace().Id() || info.ParentId == nil || *info.ParentId != from || !info.Sampled {
				c.Failf("sampled request of span %x in trace %x carries %s %s %v: %v", uint64(from), uint64(inner.Trace().Id()), show(info.TraceId),
					show(info.ParentId), info.Sampled, req.Header)
			}
			if preset && req.Header.Get("baggage") != "k=v" {
				c.Failf("baggage lost")
			}
		}
		for j := len(exits) - 1; j >= 0; j-- {
			exits[j](nil)
		}
	}
}

type hop struct {
	trace, parent, span int64
	sampled             bool
	anns                []string
}

// hops sends concurrent requests through chains of real servers.
func hops(c *vh.C) {
	r := c.Rng
	n := 1 + r.Intn(3)
	var mtx sync.Mutex
	// by request
	log := map[string][]hop{}
	froms := map[string][]int64{}
	next := ""
	var tr = &http.Transport{}
	defer tr.CloseIdleConnections()
	cl := &http.Client{Transport: tr}
	for i := 0; i < n; i++ {
		url := next
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed("srv")
		extra := r.Intn(2) == 0
		srv := httptest.NewServer(mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			ctx := req.Context()
			s := monkit.SpanFromCtx(ctx)
			p, _ := s.ParentId()
			h := hop{trace: s.Trace().Id(), parent: p, span: s.Id()}
			h.sampled, _ = s.Trace().Get(present.SampledKey).(bool)
			for _, a := range s.Annotations() {
				h.anns = append(h.anns, a.Name+"="+a.Value)
			}
			if extra {
				defer scope.FuncNamed("extra").Task(&ctx)(nil)
				s = monkit.SpanFromCtx(ctx)
			}
			key := req.URL.Query().Get("key")
			mtx.Lock()
			log[key] = append(log[key], h)
			froms[key] = append(froms[key], s.Id())
			mtx.Unlock()
			if url != "" {
				q, _ := http.NewRequest("GET", url+"/?key="+key, nil)
				resp, err := mhttp.TraceRequest(ctx, scope, cl, q)
				if err != nil {
					c.Failf("%v", err)
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				w.Write(b)
			}
			io.WriteString(w, "x")
		}), scope, "k"))
		defer srv.Close()
		next = srv.URL
	}
	reg := monkit.NewRegistry()
	scope := reg.ScopeNamed("client")
	callers := 1 + r.Intn(6)
	for g := 0; g < callers; g++ {
		seed := r.Int63()
		g := g
		c.Go(func() {
			r := rand.New(rand.NewSource(seed))
			for k := 0; k < 3; k++ {
				key := fmt.Sprintf("%d-%d", g, k)
				ctx := context.Background()
				t := monkit.NewTrace(id(r))
				sampled := r.Intn(3) != 0
				if sampled {
					t.Set(present.SampledKey, true)
				}
				exit := scope.FuncNamed("work").RemoteTrace(&ctx, 0, t)
				me := monkit.SpanFromCtx(ctx)
				q, _ := http.NewRequest("GET", next+"/?key="+key, nil)
				q.Header.Set("baggage", "k=for-"+key+",secret=1")
				resp, err := mhttp.TraceRequest(ctx, scope, cl, q)
				if err != nil {
					c.Failf("%v", err)
					exit(nil)
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				exit(nil)
				if string(b) != strings.Repeat("x", n) {
					c.Failf("body %q", b)
				}
				mtx.Lock()
				hs, fs := log[key], froms[key]
				mtx.Unlock()
				if len(hs) != n {
					c.Failf("%d hops instead of %d", len(hs), n)
					return
				}
				from := me.Id()
				for i, h := range hs {
					c.Events(1)
					if sampled {
						if h.trace != t.Id() || h.parent != from || !h.sampled {
							c.Failf("hop %d of trace %x: trace %x parent %x (should be %x) sampled %v", i, uint64(t.Id()), uint64(h.trace),
								uint64(h.parent), uint64(from), h.sampled)
						}
						bag := false
						for _, a := range h.anns {
							bag = bag || a == "k=for-"+key
							if strings.HasPrefix(a, "secret") {
								c.Failf("hop %d: annotation %q", i, a)
							}
						}
						if bag != (i == 0) {
							c.Failf("hop %d: annotations %q", i, h.anns)
						}
					} else if h.trace == t.Id() || h.sampled {
						c.Failf("hop %d of an unsampled trace: trace %x (%x) sampled %v", i, uint64(h.trace), uint64(t.Id()), h.sampled)
					}
					from = fs[i]
				}
			}
		})
	}
	c.Wait()
	c.Sig(n, callers, len(log), c.Idx)
}

func TestCheck(t *testing.T) {
	h := vh.New(t, "C22")
	h.Seq("roundtrip", h.N(200), roundtrip)
	h.Seq("parse", h.N(200), parse)
	h.Seq("served", h.N(200), served)
	h.Seq("sent", h.N(200), sent)
	h.Conc("hops", h.N(200), hops)
	h.Finish()
}
