package c20

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/pw"
	"verifh/src"
	"verifh/vh"
)

// what a request has to be answered with
type want struct {
	status      int
	either      int // also fine
	contentType string
	render      func(reg *monkit.Registry, w io.Writer) error
	index       bool
	trace       bool
}

func hexOK(s string) bool {
	if s == "" {
		return false
	}
	sig := strings.TrimLeft(s, "0")
	if len(sig) > 16 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i])) {
			return false
		}
	}
	return true
}

var boolText = map[string]bool{"1": true, "t": true, "T": true, "true": true, "TRUE": true, "True": true,
	"0": false, "f": false, "F": false, "false": false, "FALSE": false, "False": false}

const (
	text  = "text/plain; charset=utf-8"
	jsonT = "application/json; charset=utf-8"
)

func expect(path string, q url.Values, names []string) want {
	var segs []string
	for _, s := range strings.Split(path, "/") {
		if s != "" {
			segs = append(segs, s)
		}
	}
	get := func(i int) string {
		if i < len(segs) {
			return segs[i]
		}
		return ""
	}
	ok := func(ct string, f func(*monkit.Registry, io.Writer) error) want {
		return want{status: 200, contentType: ct, render: f}
	}
	switch get(0) {
	case "":
		return want{status: 200, contentType: "text/html", index: true}
	case "ps":
		switch get(1) {
		case "", "text":
			return ok(text, present.SpansText)
		case "dot":
			return ok(text, present.SpansDot)
		case "json":
			return ok(jsonT, present.SpansJSON)
		}
	case "funcs":
		switch get(1) {
		case "", "text":
			return ok(text, present.FuncsText)
		case "dot":
			return ok(text, present.FuncsDot)
		case "json":
			return ok(jsonT, present.FuncsJSON)
		}
	case "stats":
		switch get(1) {
		case "", "text", "old":
			return ok(text, present.StatsText)
		case "json":
			return ok(jsonT, present.StatsJSON)
		}
	case "trace":
		known := get(1) == "svg" || get(1) == "json" || get(1) == "remote"
		bad := want{status: 400}
		if !known {
			bad.either = 404
		}
		re, id, pre := q.Get("regex"), q.Get("trace_id"), q.Get("preselect")
		if re == "" && id == "" {
			return bad
		}
		if re != "" {
			r, err := regexp.Compile(re)
			if err != nil {
				return bad
			}
			preselect := true
			if pre != "" {
				v, ok := boolText[pre]
				if !ok {
					return bad
				}
				preselect = v
			}
			if preselect {
				found := false
				for _, n := range names {
					found = found || r.MatchString(n)
				}
				if !found {
					return bad
				}
			}
		}
		if id != "" && !hexOK(id) {
			return bad
		}
		if !known {
			return want{status: 404}
		}
		w := want{status: 200, trace: true}
		switch get(1) {
		case "svg":
			w.contentType = "image/svg+xml; charset=utf-8"
		case "json":
			w.contentType = jsonT
		case "remote":
			w.contentType = "text/html; charset=utf-8"
			if q.Get("viz") == "" {
				w.contentType = jsonT
			} else if u := viz(q.Get("viz")); u == nil {
				w.contentType = jsonT
			}
		}
		return w
	}
	return want{status: 404}
}

func viz(s string) *url.URL {
	if !strings.HasPrefix(s, "http:") && !strings.HasPrefix(s, "https:") {
		s = "http://" + s
	}
	u, _ := url.Parse(s)
	return u
}

func pathOf(r *rand.Rand) string {
	firsts := []string{"", "ps", "funcs", "stats", "trace", "trace", "trace", "PS", "ps ", "index", "favicon.ico", vh.Nasty(r)}
	seconds := []string{"", "text", "json", "dot", "svg", "old", "remote", "json.", "JSON", vh.Nasty(r)}
	sl := func() string { return []string{"/", "/", "/", "//", "///"}[r.Intn(5)] }
	p := sl()
	if r.Intn(6) == 0 {
		p = ""
	}
	p += firsts[r.Intn(len(firsts))]
	if r.Intn(4) != 0 {
		p += sl() + seconds[r.Intn(len(seconds))]
		for r.Intn(3) == 0 {
			p += sl() + seconds[r.Intn(len(seconds))]
		}
	}
	return p
}

func queryOf(r *rand.Rand, names []string) url.Values {
	q := url.Values{}
	if r.Intn(3) != 0 {
		var re string
		switch r.Intn(6) {
		case 0:
			re = vh.Nasty(r)
		case 1:
			re = "("
		case 2:
			re = "^nothing at all like this$"
		case 3:
			if len(names) > 0 {
				re = regexp.QuoteMeta(names[r.Intn(len(names))])
				switch r.Intn(4) {
				case 0:
					re = "^" + re + "$"
				case 1:
					// its end alone is no name
					re = "^" + re[strings.LastIndex(re, ".")+1:] + "$"
				}
			}
		case 4:
			re = "(?P<n>a+"
		default:
			re = "."
		}
		q.Add("regex", re)
		if r.Intn(8) == 0 {
			q.Add("regex", "(")
		}
	}
	if r.Intn(2) == 0 {
		q.Add("trace_id", []string{"", "0", "ff", "FF", "xyz", "0x10", "-1", "+1", "1_0", " 1", "ffffffffffffffff",
			"10000000000000000", "0000000000000000000000001", "8000000000000000", "7fffffffffffffff", "g", vh.Nasty(r)}[r.Intn(17)])
	}
	if r.Intn(2) == 0 {
		q.Add("preselect", []string{"", "true", "false", "1", "0", "t", "F", "TRUE", "False", "yes", "no", "tRUE", "2", vh.Nasty(r)}[r.Intn(14)])
	}
	if r.Intn(4) == 0 {
		q.Add("viz", []string{"", "host", "http://h/x?y=z&argv=1", "https://h", "h:1", "http://[::1", "%zz", vh.Nasty(r)}[r.Intn(8)])
	}
	if r.Intn(8) == 0 {
		q.Add(vh.Nasty(r), vh.Nasty(r))
	}
	return q
}

// escaped escapes more of a path or query element than has to be.
func escaped(r *rand.Rand, s string, must func(byte) bool) string {
	var b strings.Builder
	p := []int{1, 2, 5, 1000}[r.Intn(4)]
	for i := 0; i < len(s); i++ {
		if must(s[i]) || r.Intn(p) == 0 {
			fmt.Fprintf(&b, []string{"%%%02x", "%%%02X"}[r.Intn(2)], s[i])
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func mustPath(c byte) bool {
	return !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("/-_.~", c) >= 0)
}

// wire is a URL that means path and q, written in one of many ways.
func wire(r *rand.Rand, path string, q url.Values) *url.URL {
	u := &url.URL{Path: path}
	if raw := escaped(r, path, mustPath); r.Intn(2) == 0 {
		u.RawPath = raw
	}
	if r.Intn(2) == 0 {
		u.RawQuery = q.Encode()
		return u
	}
	must := func(c byte) bool { return mustPath(c) && c != '+' || c == '/' || c == '+' }
	var keys []string
	for k := range q {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	var parts []string
	for _, k := range keys {
		for _, v := range q[k] {
			if r.Intn(6) == 0 {
				parts = append(parts, []string{"", "regex2=%28", "preselec=maybe", "Trace_ID=zz", "%zz=1"}[r.Intn(5)])
			}
			parts = append(parts, escaped(r, k, must)+"="+escaped(r, v, must))
		}
	}
	u.RawQuery = strings.Join(parts, "&")
	return u
}

// same compares renderings whose items may come in any order.
func same(a, b string) bool {
	if a == b {
		return true
	}
	f := func(s string) string {
		p := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune("\n,[]{} \\", r) })
		sort.Strings(p)
		return strings.Join(p, "\n")
	}
	return f(a) == f(b)
}

func names(w *pw.W) (out []string) {
	for _, f := range w.Fns {
		out = append(out, f.Full())
	}
	return out
}

func snapshot(w *pw.W) string {
	var lines []string
	for _, s := range src.Read(w.Reg) {
		lines = append(lines, fmt.Sprintf("%s %v", s.ID(), s.Val))
	}
	for _, f := range w.Fns {
		lines = append(lines, fmt.Sprint(f.F.Id(), f.F.Current(), f.F.Highwater(), f.F.Success(), f.F.Panics(), f.F.Errors()))
		f.F.Parents(func(p *monkit.Func) { lines = append(lines, fmt.Sprintf("%d parent %p", f.F.Id(), p)) })
	}
	w.Reg.AllSpans(func(s *monkit.Span) {
		lines = append(lines, fmt.Sprint(s.Id(), s.Orphaned(), s.Annotations(), s.Trace().GetAll()))
	})
	w.Reg.Scopes(func(s *monkit.Scope) { lines = append(lines, "scope "+s.Name()) })
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func newWorld(c *vh.C) *pw.W {
	w := pw.New(c, 1+c.Rng.Intn(4))
	steps := 5 + c.Rng.Intn(15)
	switch c.Rng.Intn(40) {
	case 0:
		w = pw.NewLong(c, 2)
	case 1:
		w = pw.New(c, vh.Many(c.Rng, 300))
	case 2:
		steps = 150
	}
	w.NoSleep = vh.Phase("real")
	w.Play(steps)
	for i := c.Rng.Intn(4); i > 0; i-- {
		s := src.Make(w.Reg.ScopeNamed(fmt.Sprint("own", i)), src.Kinds[c.Rng.Intn(len(src.Kinds))], vh.Nasty(c.Rng), nil, c.Rng)
		s.Update(c.Rng)
	}
	return w
}

func check(c *vh.C, w *pw.W, ns []string, path string, q url.Values, status int, ct, body string) want {
	e := expect(path, q, ns)
	what := fmt.Sprintf("%q?%s", path, q.Encode())
	if status != e.status && (e.either == 0 || status != e.either) {
		c.Failf("%s: status %d, want %d: %.200q", what, status, e.status, body)
		return e
	}
	if e.status != 200 {
		if !strings.HasPrefix(ct, "text/plain") || strings.TrimSpace(body) == "" {
			c.Failf("%s: error answered with content type %q and body %.100q", what, ct, body)
		}
		return e
	}
	if ct != e.contentType {
		c.Failf("%s: content type %q, want %q", what, ct, e.contentType)
	}
	if e.index {
		listed := map[string]bool{}
		for _, m := range regexp.MustCompile(`href="([^"]*)"`).FindAllStringSubmatch(body, -1) {
			l := html.UnescapeString(m[1])
			listed[l] = true
			// what it lists exists (some of it needs parameters)
			if x := expect("/"+l, url.Values{}, ns); x.status == http.StatusNotFound {
				c.Failf("%s: the index links to %q, which doesn't exist", what, l)
			}
		}
		for _, l := range []string{"ps", "ps/json", "ps/dot", "funcs", "funcs/json", "funcs/dot", "stats", "stats/json", "trace/json", "trace/svg"} {
			if !listed[l] {
				c.Failf("%s: the index lacks %s", what, l)
			}
		}
		return e
	}
	if e.render != nil {
		var buf bytes.Buffer
		if err := e.render(w.Reg, &buf); err != nil {
			c.Failf("%s: %v", what, err)
		}
		if !same(buf.String(), body) {
			c.Failf("%s: body is not the documented rendering:\n%.600q\nwant\n%.600q", what, body, buf.String())
		}
	}
	return e
}

// requests goes through the handler itself, under virtual time.
func requests(c *vh.C) {
	w := newWorld(c)
	ns := names(w)
	for i := 0; i < 3; i++ {
		w.Reg.ScopeNamed("own1")
	}
	w.Reg.Funcs(func(f *monkit.Func) {
		for _, n := range ns {
			if n == f.FullName() {
				return
			}
		}
		ns = append(ns, f.FullName())
	})
	h := present.HTTP(w.Reg)
	before := snapshot(w)
	for i := 0; i < 25; i++ {
		if i%9 == 8 {
			// more happens between requests
			if after := snapshot(w); after != before {
				c.Failf("rendering changed what it shows:\nbefore\n%.3000s\nafter\n%.3000s", before, after)
			}
			w.Play(1 + c.Rng.Intn(8))
			f := w.Reg.ScopeNamed(fmt.Sprint("late", c.Rng.Intn(3))).FuncNamed(vh.Nasty(c.Rng))
			f.Observe()(nil)
			ns = append(ns, f.FullName())
			before = snapshot(w)
		}
		path, q := pathOf(c.Rng), queryOf(c.Rng, ns)
		e := expect(path, q, ns)
		c.Sig(path, q.Encode())
		c.Logf("%q?%s", path, q.Encode())
		if e.trace {
			// only made, not run: running it would wait for a span
			var f present.Result
			var ct string
			var err error
			if rec, p := vh.Catch(func() { f, ct, err = present.FromRequest(w.Reg, path, q) }); p {
				c.Fatalf("%q?%s: panic %v", path, q.Encode(), rec)
			}
			if err != nil || f == nil || ct != e.contentType {
				c.Failf("%q?%s: FromRequest says %q, %v, want %q", path, q.Encode(), ct, err, e.contentType)
			}
			c.Events(1)
			continue
		}
		rec := httptest.NewRecorder()
		req := &http.Request{Method: []string{"GET", "POST", "HEAD"}[c.Rng.Intn(3)],
			URL: wire(c.Rng, path, q), Header: http.Header{}}
		c.Logf("%q %q", req.URL.RawPath, req.URL.RawQuery)
		if r, p := vh.Catch(func() { h.ServeHTTP(rec, req) }); p {
			c.Fatalf("%q?%s: panic %v", path, q.Encode(), r)
		}
		check(c, w, ns, path, q, rec.Code, rec.Header().Get("Content-Type"), rec.Body.String())
		var f present.Result
		var ct string
		var err error
		if r, p := vh.Catch(func() { f, ct, err = present.FromRequest(w.Reg, path, q) }); p {
			c.Fatalf("%q?%s: panic %v", path, q.Encode(), r)
		}
		if (err == nil) != (e.status == 200) || (err == nil) != (f != nil) || (err == nil && ct != e.contentType) {
			c.Failf("%q?%s: FromRequest says %q, %v, want status %d and %q", path, q.Encode(), ct, err, e.status, e.contentType)
		}
		if f != nil {
			var buf bytes.Buffer
			if err := f(&buf); err != nil {
				c.Failf("%q?%s: %v", path, q.Encode(), err)
			}
			if !same(buf.String(), rec.Body.String()) {
				c.Failf("%q?%s: FromRequest's result differs from the handler's", path, q.Encode())
			}
			if c.Rng.Intn(10) == 0 {
				pw.Faults(c, path, f, 5)
			}
		}
		c.Events(1)
		if c.Failed() {
			return
		}
	}
	if after := snapshot(w); after != before {
		c.Failf("rendering changed what it shows:\nbefore\n%.3000s\nafter\n%.3000s", before, after)
	}
}

// fixed goes through all combinations of path elements.
func fixed(c *vh.C) {
	w := newWorld(c)
	ns := names(w)
	w.Reg.Funcs(func(f *monkit.Func) { ns = append(ns, f.FullName()) })
	h := present.HTTP(w.Reg)
	for _, first := range []string{"", "ps", "funcs", "stats", "trace", "nope"} {
		for _, second := range []string{"", "text", "json", "dot", "old", "svg", "remote", "nope"} {
			for _, form := range []string{"/%s/%s", "%s/%s", "//%s//%s//", "/%s/%s/third/fourth"} {
				path := fmt.Sprintf(form, first, second)
				for _, q := range []url.Values{{}, {"regex": {"("}}, {"trace_id": {"zz"}}, {"regex": {"."}, "preselect": {"maybe"}},
					{"regex": {"no such function"}}, {"regex": {""}, "trace_id": {""}}, {"preselect": {"false"}}} {
					e := expect(path, q, ns)
					if e.trace {
						continue
					}
					rec := httptest.NewRecorder()
					if r, p := vh.Catch(func() {
						h.ServeHTTP(rec, &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: q.Encode()}, Header: http.Header{}})
					}); p {
						c.Fatalf("%q?%s: panic %v", path, q.Encode(), r)
					}
					check(c, w, ns, path, q, rec.Code, rec.Header().Get("Content-Type"), rec.Body.String())
					c.Events(1)
					c.Sig(path, q.Encode())
				}
			}
		}
	}
}

// server asks a real server over the loopback network.
func server(c *vh.C) {
	w := newWorld(c)
	ns := names(w)
	w.Reg.Funcs(func(f *monkit.Func) { ns = append(ns, f.FullName()) })
	ts := httptest.NewServer(present.HTTP(w.Reg))
	defer ts.Close()
	for i := 0; i < 20; i++ {
		path, q := pathOf(c.Rng), queryOf(c.Rng, ns)
		if !strings.HasPrefix(path, "/") {
			path = "/" + path
		}
		if expect(path, q, ns).trace {
			continue
		}
		u, err := url.Parse(ts.URL)
		if err != nil {
			c.Fatalf("%v", err)
		}
		x := wire(c.Rng, path, q)
		u.Path, u.RawPath, u.RawQuery = path, x.RawPath, x.RawQuery
		resp, err := ts.Client().Get(u.String())
		if err != nil {
			c.Failf("%s: %v", u, err)
			return
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil {
			c.Failf("%s: %v", u, err)
		}
		e := expect(path, q, ns)
		if e.render != nil && strings.Contains(path, "ps") {
			body = nil // the elapsed times differ
			var buf bytes.Buffer
			_ = e.render(w.Reg, &buf)
			body = buf.Bytes()
			e.render = nil
			if resp.StatusCode != 200 || resp.Header.Get("Content-Type") != e.contentType {
				c.Failf("%s: %d %q", u, resp.StatusCode, resp.Header.Get("Content-Type"))
			}
		} else if e.render != nil && strings.Contains(path, "stats") {
			// rates depend on the time
			if resp.StatusCode != 200 || resp.Header.Get("Content-Type") != e.contentType {
				c.Failf("%s: %d %q", u, resp.StatusCode, resp.Header.Get("Content-Type"))
			}
		} else {
			check(c, w, ns, path, q, resp.StatusCode, resp.Header.Get("Content-Type"), string(body))
		}
		c.Events(1)
		c.Sig(path, q.Encode())
	}
}

func TestCheck(t *testing.T) {
	if vh.Phase("real") {
		h := vh.New(t, "C20")
		h.Serial("server", h.N(40), server)
		h.Finish()
		return
	}
	vh.Bubble(t, "C20", func(h *vh.H) {
		h.Serial("fixed", h.N(2), fixed)
		h.Seq("requests", h.N(120), requests)
	})
}
