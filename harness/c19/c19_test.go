package c19

import (
	"bytes"
	"context"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf16"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"

	"verifh/pw"
	"verifh/src"
	"verifh/vh"
)

func render(c *vh.C, what string, f func(w io.Writer) error) string {
	var buf bytes.Buffer
	if err := f(&buf); err != nil {
		c.Fatalf("%s returned %v", what, err)
	}
	return buf.String()
}

func faults(c *vh.C, what string, f func(w io.Writer) error) {
	if c.Rng.Intn(3) == 0 {
		pw.Faults(c, what, f, 12)
	}
}

// cur consumes a text and stops the case when it isn't what it has to be.
type cur struct {
	c    *vh.C
	what string
	s    string
}

func (x *cur) lit(s string) {
	if !strings.HasPrefix(x.s, s) {
		n := len(s) + 60
		if n > len(x.s) {
			n = len(x.s)
		}
		x.c.Fatalf("%s: got %.400q\nwant %.400q", x.what, x.s[:n], s)
	}
	x.s = x.s[len(s):]
}

func (x *cur) try(s string) bool {
	if strings.HasPrefix(x.s, s) {
		x.s = x.s[len(s):]
		return true
	}
	return false
}

func (x *cur) number() int64 {
	i := 0
	for i < len(x.s) && (x.s[i] == '-' || x.s[i] >= '0' && x.s[i] <= '9') {
		i++
	}
	n, err := strconv.ParseInt(x.s[:i], 10, 64)
	if err != nil {
		x.c.Fatalf("%s: a number is expected at %.80q", x.what, x.s)
	}
	x.s = x.s[i:]
	return n
}

// line consumes up to the end of the line.
func (x *cur) line() string {
	i := strings.IndexByte(x.s, '\n')
	if i < 0 {
		x.c.Fatalf("%s: line expected at %.80q", x.what, x.s)
	}
	l := x.s[:i]
	x.s = x.s[i+1:]
	return l
}

func (x *cur) near(want float64) {
	l := x.line()
	d, err := time.ParseDuration(l)
	if err != nil || !pw.Near(float64(d), want) {
		x.c.Fatalf("%s: duration %q, want %v", x.what, l, time.Duration(want))
	}
}

func (x *cur) dist(ds []time.Duration, indent string) {
	for _, q := range monkit.ObservedQuantiles {
		x.lit(fmt.Sprintf("%s%.02f: ", indent, q))
		if len(ds) <= 64 {
			x.near(pw.Quantile(ds, q))
		} else {
			x.line()
		}
	}
	x.lit(indent + "avg: ")
	x.near(pw.Avg(ds))
	x.lit(indent + "ravg: ")
	if len(ds) <= 64 {
		x.near(pw.Avg(ds))
	} else {
		x.line()
	}
	var sum, recent time.Duration
	for _, d := range ds {
		sum += d
		recent = d
	}
	x.lit(fmt.Sprintf("%srecent: %s\n%ssum: %s\n", indent, recent, indent, sum))
}

// errs consumes the lines of a function's errors, in any order.
func (x *cur) errs(f *pw.Fn, indent string) {
	left := map[string]bool{}
	for n, k := range f.Errs {
		left[fmt.Sprintf("%serror %s: %d\n", indent, n, k)] = true
	}
	for len(left) > 0 {
		best := "" // the longest that fits, as one might be a prefix of another
		for l := range left {
			if strings.HasPrefix(x.s, l) && len(l) > len(best) {
				best = l
			}
		}
		if best == "" {
			x.c.Fatalf("%s: error lines missing: %q at %.200q", x.what, left, x.s)
		}
		delete(left, best)
		x.lit(best)
	}
}

func (x *cur) end() {
	if x.s != "" {
		x.c.Fatalf("%s: surplus text %.200q", x.what, x.s)
	}
}

func funcsText(c *vh.C, w *pw.W) {
	f := func(o io.Writer) error { return present.FuncsText(w.Reg, o) }
	x := &cur{c, "FuncsText", render(c, "FuncsText", f)}
	left := map[int64]*pw.Fn{}
	for _, fn := range w.Fns {
		left[fn.F.Id()] = fn
	}
	for len(left) > 0 {
		x.lit("[")
		id := x.number()
		fn := left[id]
		if fn == nil {
			c.Fatalf("FuncsText lists function %d again or wrongly", id)
		}
		delete(left, id)
		x.what = fmt.Sprintf("FuncsText of %q", fn.Full())
		x.lit("] " + fn.Full() + "\n  parents: ")
		parents := map[string]bool{}
		for p := range fn.Parents {
			if p == nil {
				parents["entry"] = true
			} else {
				parents[fmt.Sprint(p.F.Id())] = true
			}
		}
		got := strings.Split(x.line(), ", ")
		if len(parents) == 0 && len(got) == 1 && got[0] == "" {
			got = nil
		}
		for _, p := range got {
			if !parents[p] {
				c.Fatalf("%s: parent %q, want %v", x.what, p, parents)
			}
			delete(parents, p)
		}
		if len(parents) > 0 {
			c.Fatalf("%s: parents %v are missing", x.what, parents)
		}
		x.lit(fmt.Sprintf("  current: %d, highwater: %d, success: %d, errors: %d, panics: %d\n",
			fn.Current, fn.High, len(fn.Ok), fn.Errors(), fn.Panics))
		x.errs(fn, "  ")
		x.lit("  success times:\n")
		x.dist(fn.Ok, "    ")
		x.lit("  failure times:\n")
		x.dist(fn.Fail, "    ")
		x.lit("\n")
		c.Events(1)
	}
	x.end()
	faults(c, "FuncsText", f)
}

func funcsDot(c *vh.C, w *pw.W) {
	f := func(o io.Writer) error { return present.FuncsDot(w.Reg, o) }
	text := render(c, "FuncsDot", f)
	g, err := parseDot(text)
	if err != nil {
		c.Fatalf("FuncsDot is not DOT: %v\n%.3000s", err, text)
	}
	nodes, edges := 0, 0
	for _, fn := range w.Fns {
		id := fmt.Sprintf("f%d", fn.F.Id())
		n := g.Nodes[id]
		if n == nil || n.Count != 1 {
			c.Fatalf("FuncsDot: no or several nodes for %q", fn.Full())
		}
		nodes++
		l, err := label(n.Attrs["label"])
		if err != nil {
			c.Fatalf("FuncsDot: label of %q: %v", fn.Full(), err)
		}
		x := &cur{c, fmt.Sprintf("FuncsDot label of %q", fn.Full()), l}
		x.lit(fn.Full() + "\n")
		x.lit(fmt.Sprintf("current: %d, highwater: %d, success: %d, errors: %d, panics: %d\n",
			fn.Current, fn.High, len(fn.Ok), fn.Errors(), fn.Panics))
		x.errs(fn, "")
		if len(fn.Ok) > 0 {
			x.lit("success times:\n")
			x.dist(fn.Ok, "        ")
		}
		if len(fn.Fail) > 0 {
			x.lit("failure times:\n")
			x.dist(fn.Fail, "        ")
		}
		x.end()
		for p := range fn.Parents {
			var e [2]string
			if p == nil {
				// an entry node of its own
				e = [2]string{fmt.Sprintf("r%d", fn.F.Id()), id}
				en := g.Nodes[e[0]]
				if en == nil || en.Count != 1 || en.Attrs["label"] != "entry" {
					c.Fatalf("FuncsDot: entry node of %q: %v", fn.Full(), en)
				}
				nodes++
			} else {
				e = [2]string{fmt.Sprintf("f%d", p.F.Id()), id}
			}
			if g.Edges[e] != 1 {
				c.Fatalf("FuncsDot: edge %v is there %d times", e, g.Edges[e])
			}
			edges++
		}
		c.Events(1)
	}
	if len(g.Nodes) != nodes || len(g.Edges) != edges {
		c.Fatalf("FuncsDot: %d nodes and %d edges, want %d and %d", len(g.Nodes), len(g.Edges), nodes, edges)
	}
	faults(c, "FuncsDot", f)
}

func spansText(c *vh.C, w *pw.W) {
	f := func(o io.Writer) error { return present.SpansText(w.Reg, o) }
	x := &cur{c, "SpansText", render(c, "SpansText", f)}
	now := time.Now()
	var tree func(left map[*pw.Sp]bool, indent string)
	tree = func(left map[*pw.Sp]bool, indent string) {
		for n := len(left); n > 0; n-- {
			x.lit(indent + "[")
			id := x.number()
			s := w.ByID[id]
			if s == nil || !left[s] {
				c.Fatalf("SpansText: span %d (known: %v) is listed here but does not belong here, or again", id, s != nil)
			}
			delete(left, s)
			x.what = fmt.Sprintf("SpansText of span %d", s.Idx)
			orphaned := ""
			if s.Orphaned {
				orphaned = ", orphaned"
			}
			x.lit(fmt.Sprintf(",%d] %s(%s) (elapsed: %s%s)\n", s.Trace.Id(), s.F.Full(),
				strings.Join(s.ArgTexts(), ", "), now.Sub(s.Start), orphaned))
			for _, a := range s.Anns {
				x.lit(fmt.Sprintf("%s  %s: %s\n", indent, a.Name, a.Value))
			}
			kids := map[*pw.Sp]bool{}
			for k := range s.Kids {
				kids[k] = true
			}
			tree(kids, indent+" ")
			if indent == "" {
				x.lit("\n")
			}
			c.Events(1)
		}
	}
	tree(w.Roots(), "")
	x.end()
	faults(c, "SpansText", f)
}

func spansDot(c *vh.C, w *pw.W) {
	f := func(o io.Writer) error { return present.SpansDot(w.Reg, o) }
	text := render(c, "SpansDot", f)
	g, err := parseDot(text)
	if err != nil {
		c.Fatalf("SpansDot is not DOT: %v\n%.3000s", err, text)
	}
	now := time.Now()
	edges := 0
	for _, s := range w.Live {
		id := fmt.Sprintf("f%d", s.S.Id())
		n := g.Nodes[id]
		if n == nil || n.Count != 1 {
			c.Fatalf("SpansDot: no or several nodes for span %d", s.Idx)
		}
		l, err := label(n.Attrs["label"])
		if err != nil {
			c.Fatalf("SpansDot: label of span %d: %v", s.Idx, err)
		}
		want := fmt.Sprintf("%s(%s)\nelapsed: %s\n", s.F.Full(), strings.Join(s.ArgTexts(), ", "), now.Sub(s.Start))
		if s.Orphaned {
			want += "orphaned\n"
		}
		for _, a := range s.Anns {
			want += fmt.Sprintf("%s: %s\n", a.Name, a.Value)
		}
		if l != want {
			c.Fatalf("SpansDot: label of span %d is\n%.400q\nwant\n%.400q", s.Idx, l, want)
		}
		if s.Parent != nil && !s.Parent.Done {
			e := [2]string{fmt.Sprintf("f%d", s.Parent.S.Id()), id}
			if g.Edges[e] != 1 {
				c.Fatalf("SpansDot: edge %v is there %d times", e, g.Edges[e])
			}
			edges++
		}
		c.Events(1)
	}
	if len(g.Nodes) != len(w.Live) || len(g.Edges) != edges {
		c.Fatalf("SpansDot: %d nodes and %d edges, want %d and %d", len(g.Nodes), len(g.Edges), len(w.Live), edges)
	}
	faults(c, "SpansDot", f)
}

// clean is the text as far as XML can hold it.
func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == 0x9 || r == 0xA || r == 0xD || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF {
			b.WriteRune(r)
		} else {
			b.WriteRune(0xFFFD)
		}
	}
	return b.String()
}

type bar struct {
	class, fill, text string
	x, y, w, h        int
	rects, texts      int
	clip              [4]int
	clips             int
	tx, ty            int
	line              [4]int // x1, y1, x2, y2
	lines             int
	over, out, click  string
}

// jsCall reads "name('arg', 'arg', ...);" the way a browser would.
func jsCall(src, name string) (args []string, err error) {
	s := []rune(src)
	i := 0
	ws := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
			i++
		}
	}
	lit := func(l string) bool {
		ws()
		for _, r := range l {
			if i >= len(s) || s[i] != r {
				return false
			}
			i++
		}
		return true
	}
	if !lit(name) || !lit("(") {
		return nil, fmt.Errorf("no call of %s", name)
	}
	for {
		ws()
		if i >= len(s) || s[i] != '\'' && s[i] != '"' {
			return nil, fmt.Errorf("no string at %d", i)
		}
		quote := s[i]
		i++
		var arg []rune
		for {
			if i >= len(s) || s[i] == '\n' || s[i] == '\r' || s[i] == 0x2028 || s[i] == 0x2029 {
				return nil, fmt.Errorf("string not terminated at %d", i)
			}
			r := s[i]
			i++
			if r == quote {
				break
			}
			if r != '\\' {
				arg = append(arg, r)
				continue
			}
			if i >= len(s) {
				return nil, fmt.Errorf("nothing after a backslash")
			}
			r = s[i]
			i++
			hex := 0
			switch r {
			case 'n':
				r = '\n'
			case 'r':
				r = '\r'
			case 't':
				r = '\t'
			case 'b':
				r = '\b'
			case 'f':
				r = '\f'
			case 'v':
				r = '\v'
			case '0':
				r = 0
			case '\n', '\r', 0x2028, 0x2029:
				continue
			case 'x':
				hex = 2
			case 'u':
				hex = 4
			}
			if hex > 0 {
				if i+hex > len(s) {
					return nil, fmt.Errorf("short escape")
				}
				v, err := strconv.ParseUint(string(s[i:i+hex]), 16, 32)
				if err != nil {
					return nil, err
				}
				i += hex
				r = rune(v)
				if n := len(arg); n > 0 && utf16.IsSurrogate(r) {
					if both := utf16.DecodeRune(arg[n-1], r); both != 0xFFFD {
						arg[n-1] = both
						continue
					}
				}
			}
			arg = append(arg, r)
		}
		args = append(args, string(arg))
		ws()
		if i < len(s) && s[i] == ',' {
			i++
			continue
		}
		if !lit(")") {
			return nil, fmt.Errorf("the call goes on at %d", i)
		}
		lit(";")
		ws()
		if i != len(s) {
			return nil, fmt.Errorf("more after the call: %.100q", string(s[i:]))
		}
		return args, nil
	}
}

func attr(e xml.StartElement, name string) string {
	for _, a := range e.Attr {
		if a.Name.Local == name {
			return a.Value
		}
	}
	return ""
}

func parseSVG(c *vh.C, text string) (bars map[string]*bar, width, height int) {
	bars = map[string]*bar{}
	bad := func(f string, args ...interface{}) {
		c.Fatalf("SVG: %s\n%.2000s", fmt.Sprintf(f, args...), text)
	}
	if !strings.HasPrefix(text, "<?xml") {
		bad("does not begin with the XML declaration")
	}
	d := xml.NewDecoder(strings.NewReader(text))
	var stack []xml.StartElement
	var cur *bar
	curDepth := 0
	roots := 0
	ids := map[string]bool{}
	refs := map[string]bool{}
	clipID := ""
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			bad("not well-formed: %v", err)
		}
		switch e := tok.(type) {
		case xml.StartElement:
			e = e.Copy()
			if len(stack) == 0 {
				roots++
				if e.Name.Local != "svg" {
					bad("root element %s", e.Name.Local)
				}
				width, _ = strconv.Atoi(attr(e, "width"))
				height, _ = strconv.Atoi(attr(e, "height"))
				if vb := attr(e, "viewBox"); vb != fmt.Sprintf("0 0 %d %d", width, height) {
					bad("view box %s of a picture of %d by %d", vb, width, height)
				}
			}
			stack = append(stack, e)
			id := attr(e, "id")
			if id != "" {
				if ids[id] {
					bad("two elements have the id %s", id)
				}
				ids[id] = true
			}
			for _, a := range e.Attr {
				if strings.HasPrefix(a.Value, "url(#") {
					refs[strings.TrimSuffix(a.Value[5:], ")")] = true
				}
			}
			if cur != nil && e.Name.Local == "clipPath" {
				clipID = id
			}
			seen := map[string]bool{}
			for _, a := range e.Attr {
				if seen[a.Name.Space+":"+a.Name.Local] {
					bad("attribute %s twice", a.Name.Local)
				}
				seen[a.Name.Space+":"+a.Name.Local] = true
			}
			if e.Name.Local == "g" && strings.HasPrefix(id, "id-") {
				if cur != nil {
					bad("group %s inside of another", id)
				}
				if bars[id[3:]] != nil {
					bad("two groups %s", id)
				}
				cur = &bar{class: attr(e, "class"), over: attr(e, "onmouseover"), out: attr(e, "onmouseout"), click: attr(e, "onclick")}
				curDepth = len(stack)
				clipID = ""
				bars[id[3:]] = cur
			}
			if cur != nil && e.Name.Local == "rect" && len(stack) == curDepth+1 {
				cur.rects++
				cur.fill = attr(e, "fill")
				for n, p := range map[string]*int{"x": &cur.x, "y": &cur.y, "width": &cur.w, "height": &cur.h} {
					v, err := strconv.Atoi(attr(e, n))
					if err != nil {
						bad("rect %s=%q", n, attr(e, n))
					}
					*p = v
				}
			}
			num := func(n string) int {
				v, err := strconv.Atoi(attr(e, n))
				if err != nil {
					bad("%s %s=%q", e.Name.Local, n, attr(e, n))
				}
				return v
			}
			if cur != nil && e.Name.Local == "rect" && len(stack) == curDepth+2 {
				cur.clips++
				cur.clip = [4]int{num("x"), num("y"), num("width"), num("height")}
			}
			if cur != nil && e.Name.Local == "line" {
				cur.lines++
				cur.line = [4]int{num("x1"), num("y1"), num("x2"), num("y2")}
			}
			if cur != nil && e.Name.Local == "text" && len(stack) == curDepth+1 {
				cur.texts++
				if ref := attr(e, "clip-path"); ref != "url(#"+clipID+")" || clipID == "" {
					bad("text clipped to %q, its bar has the clip path %q", ref, clipID)
				}
				cur.tx, cur.ty = num("x"), num("y")
			}
		case xml.EndElement:
			if cur != nil && len(stack) == curDepth {
				cur = nil
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if cur != nil && len(stack) == curDepth+1 && stack[len(stack)-1].Name.Local == "text" {
				cur.text += string(e)
			} else if len(stack) == 0 && strings.TrimSpace(string(e)) != "" {
				bad("text outside of the document: %q", e)
			}
		}
	}
	for id := range refs {
		if !ids[id] {
			bad("something refers to %q, which doesn't exist", id)
		}
	}
	if roots != 1 {
		bad("%d root elements", roots)
	}
	return bars, width, height
}

func isCanceled(err error) bool {
	for {
		if err == context.Canceled {
			return true
		}
		w, ok := err.(*pw.Wrapped)
		if !ok || w.In == nil {
			return false
		}
		err = w.In
	}
}

func checkSVG(c *vh.C, list []*collect.FinishedSpan, sps map[*monkit.Span]*pw.Sp) {
	given := append([]*collect.FinishedSpan(nil), list...)
	f := func(o io.Writer) error {
		return present.SpansToSVG(o, append([]*collect.FinishedSpan(nil), given...))
	}
	var text string
	if rec, p := vh.Catch(func() { text = render(c, "SpansToSVG", f) }); p {
		panic(rec)
	}
	checkSVGText(c, text, given, sps)
	faults(c, "SpansToSVG", f)
}

func checkSVGText(c *vh.C, text string, given []*collect.FinishedSpan, sps map[*monkit.Span]*pw.Sp) {
	bars, width, height := parseSVG(c, text)
	if len(bars) != len(given) {
		c.Fatalf("SVG: %d groups for %d spans", len(bars), len(given))
	}
	var min, max time.Time
	inList := map[int64]bool{}
	for i, s := range given {
		inList[s.Span.Id()] = true
		if i == 0 || s.Span.Start().Before(min) {
			min = s.Span.Start()
		}
		if i == 0 || s.Finish.After(max) {
			max = s.Finish
		}
	}
	total := max.Sub(min)
	pos := func(t time.Time) float64 {
		if total <= 0 {
			return 0
		}
		return float64(t.Sub(min)) / float64(total) * float64(width)
	}
	rows := map[int][]*collect.FinishedSpan{}
	for _, s := range given {
		sp := sps[s.Span]
		b := bars[fmt.Sprint(s.Span.Id())]
		if b == nil || b.rects != 1 || b.texts != 1 {
			c.Fatalf("SVG: group of span %d: %+v", sp.Idx, b)
		}
		want := fmt.Sprintf("%s(%s) (%s)", clean(sp.F.Full()), clean(strings.Join(sp.ArgTexts(), " ")), s.Finish.Sub(sp.Start))
		if b.text != want {
			c.Fatalf("SVG: text of span %d is %.300q, want %.300q", sp.Idx, b.text, want)
		}
		color := "rgb(128,128,255)"
		switch {
		case s.Panicked:
			color = "rgb(255,0,0)"
		case isCanceled(s.Err):
			color = "rgb(255,255,0)"
		case s.Err != nil:
			color = "rgb(255,144,0)"
		}
		if b.fill != color {
			c.Fatalf("SVG: span %d (err %v, panicked %v) has colour %s, want %s", sp.Idx, s.Err, s.Panicked, b.fill, color)
		}
		var parent int64
		if sp.Remote != nil {
			parent = *sp.Remote
		} else if sp.Parent != nil {
			parent = sp.Parent.S.Id()
		}
		if !inList[parent] {
			parent = 0
		}
		if cl := fmt.Sprintf("func parent-%d", parent); b.class != cl {
			c.Fatalf("SVG: span %d has class %q, want %q", sp.Idx, b.class, cl)
		}
		if b.h < 1 || b.clips != 1 || b.clip != [4]int{b.x, b.y, b.w, b.h} {
			c.Fatalf("SVG: text of span %d is clipped to %v, its bar is %v", sp.Idx, b.clip, [4]int{b.x, b.y, b.w, b.h})
		}
		if b.tx != b.x || b.ty <= b.y || b.ty > b.y+b.h {
			c.Fatalf("SVG: text of span %d is at %d,%d, its bar at %d,%d", sp.Idx, b.tx, b.ty, b.x, b.y)
		}
		in := func(x, y int, b *bar) bool { return x == b.x && y > b.y && y < b.y+b.h }
		if b.lines != 1 || !in(b.line[0], b.line[1], b) {
			c.Fatalf("SVG: the line of span %d begins at %v, its bar is at %d,%d", sp.Idx, b.line, b.x, b.y)
		}
		if pb := bars[fmt.Sprint(parent)]; parent != 0 && !in(b.line[2], b.line[3], pb) {
			c.Fatalf("SVG: the line of span %d goes to %v, its parent's bar is at %d,%d", sp.Idx, b.line, pb.x, pb.y)
		}
		if b.x < 0 || b.x+b.w > width+1 {
			c.Fatalf("SVG: span %d at %d+%d is outside of the picture (%d wide)", sp.Idx, b.x, b.w, width)
		}
		ids := []string{fmt.Sprint(s.Span.Id()), fmt.Sprint(parent)}
		tip := fmt.Sprintf("%s(%s) Duration:%s Started:%s", clean(sp.F.Full()), clean(strings.Join(sp.ArgTexts(), " ")),
			s.Finish.Sub(sp.Start), sp.Start.Sub(min))
		for _, h := range []struct {
			src, name string
			want      []string
		}{
			{b.over, "mouseover", append(ids[:2:2], tip)}, {b.out, "mouseout", ids}, {b.click, "mouseclick", ids},
		} {
			got, err := jsCall(h.src, h.name)
			for i := range got {
				got[i] = clean(got[i])
			}
			if err != nil || !reflect.DeepEqual(got, h.want) {
				c.Fatalf("SVG: handler %.1000q of span %d: %v, calls %s with %.300q, want %.300q", h.src, sp.Idx, err, h.name, got, h.want)
			}
		}
		left, right := pos(sp.Start), pos(s.Finish)
		if math.Abs(float64(b.x)-left) > 1.5 || math.Abs(float64(b.w)-math.Max(right-left, 1)) > 2.5 || b.w < 1 {
			c.Fatalf("SVG: span %d is at %d+%d, want %.1f+%.1f", sp.Idx, b.x, b.w, left, right-left)
		}
		if b.y < 0 || b.y+b.h > height {
			c.Fatalf("SVG: span %d at y %d is outside of the picture (%d high)", sp.Idx, b.y, height)
		}
		for _, o := range rows[b.y] {
			s1, f1, s2, f2 := s.Span.Start(), s.Finish, o.Span.Start(), o.Finish
			inside := func(t, a, b time.Time) bool { return t.After(a) && t.Before(b) }
			lo, hi := s1, f1
			if s2.After(lo) {
				lo = s2
			}
			if f2.Before(hi) {
				hi = f2
			}
			if lo.Before(hi) || inside(s1, s2, f2) || inside(s2, s1, f1) {
				c.Fatalf("SVG: spans %d and %d overlap in row y=%d: [%v %v] and [%v %v]", sp.Idx, sps[o.Span].Idx, b.y,
					s1.Sub(min), f1.Sub(min), s2.Sub(min), f2.Sub(min))
			}
		}
		rows[b.y] = append(rows[b.y], s)
		c.Events(1)
	}
}

func svg(c *vh.C, w *pw.W, stretch bool) {
	list, sps := w.Pick()
	m := map[*monkit.Span]*pw.Sp{}
	for _, s := range sps {
		m[s.S] = s
	}
	if stretch {
		for _, s := range list {
			s.Finish = s.Span.Start().Add(pw.Dur(w.R))
			if w.R.Intn(4) == 0 {
				s.Finish = s.Span.Start().Add(time.Duration(w.R.Int63n(int64(100 * 365 * 24 * time.Hour))))
			}
		}
	}
	checkSVG(c, list, m)
}

func all(c *vh.C, w *pw.W) {
	funcsText(c, w)
	funcsDot(c, w)
	spansText(c, w)
	spansDot(c, w)
	svg(c, w, false)
}

func world(c *vh.C) {
	w := pw.New(c, 1+c.Rng.Intn(5))
	for k := 0; k < 2; k++ {
		w.Play(5 + c.Rng.Intn(25))
		all(c, w)
	}
	w.Drain()
	all(c, w)
}

// pictures makes many lists, also big ones, without rendering the rest.
func pictures(c *vh.C) {
	w := pw.New(c, 1+c.Rng.Intn(3))
	switch c.Idx % 4 {
	case 0: // everything at once
		var p *pw.Sp
		for i := c.Rng.Intn(4); i >= 0; i-- {
			p = w.Start(p)
		}
		w.Drain()
	case 1:
		w.Play(60)
	case 2:
		// a tree with gaps and long-lived children
		root := w.Start(nil)
		for i := 0; i < 20; i++ {
			w.Sleep()
			p := root
			if c.Rng.Intn(2) == 0 {
				p = w.Spans[c.Rng.Intn(len(w.Spans))]
			}
			s := w.Start(p)
			if c.Rng.Intn(2) == 0 {
				time.Sleep(time.Duration(c.Rng.Intn(1000)))
				w.End(s)
			}
			for c.Rng.Intn(3) == 0 && len(w.Live) > 0 {
				w.End(w.Live[c.Rng.Intn(len(w.Live))])
			}
		}
	default:
		w.Play(c.Rng.Intn(30))
	}
	for len(w.Live) > 0 {
		w.Sleep()
		w.End(w.Live[c.Rng.Intn(len(w.Live))])
	}
	for k := 0; k < 4; k++ {
		svg(c, w, c.Rng.Intn(3) == 0)
	}
	checkSVG(c, nil, nil)
}

func escape(s, what string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(what, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func statsText(c *vh.C) {
	r := c.Rng
	reg := monkit.NewRegistry()
	used := map[string]bool{}
	for i := r.Intn(8); i > 0; i-- {
		sn, name, kind := src.Word(r), vh.Nasty(r), src.Kinds[r.Intn(len(src.Kinds))]
		if used[sn+"\x00"+name] {
			continue
		}
		used[sn+"\x00"+name] = true
		s := src.Make(reg.ScopeNamed(sn), kind, name, src.Tags(r, vh.Nasty), r)
		for k := r.Intn(4); k > 0; k-- {
			s.Update(r)
		}
		c.Sig(kind, name)
	}
	for i := r.Intn(3); i > 0; i-- {
		name, field, val := vh.Nasty(r), vh.Nasty(r), []float64{math.NaN(), math.Inf(-1), 1e300, -0.5, 1 << 60}[r.Intn(5)]
		c.Sig(name, field, val)
		reg.ScopeNamed(vh.Nasty(r)).Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			cb(monkit.NewSeriesKey(name).WithTag(name, field), field, val)
			cb(monkit.NewSeriesKey(name), field, val)
		}))
	}
	var want strings.Builder
	n := 0
	for _, s := range src.Read(reg) {
		t := escape(s.Key.Measurement, ", ")
		var ks []string
		for k := range s.Key.Tags.All() {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			t += "," + escape(k, ",= ") + "=" + escape(s.Key.Tags.All()[k], ",= ")
		}
		fmt.Fprintf(&want, "%s %s=%f\n", t, escape(s.Field, ",= "), s.Val)
		n++
	}
	f := func(o io.Writer) error {
		if c.Idx%5 == 0 {
			return present.StatsOld(reg, o)
		}
		return present.StatsText(reg, o)
	}
	got := render(c, "StatsText", f)
	// names may contain line ends, so compare the pieces
	a, b := strings.Split(got, "\n"), strings.Split(want.String(), "\n")
	sort.Strings(a)
	sort.Strings(b)
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			c.Fatalf("StatsText: line %.300q, want %.300q", x, y)
		}
	}
	c.Events(n)
	faults(c, "StatsText", f)
}

// racing renders while calls run; documents have to be well-formed.
func racing(c *vh.C) {
	w := pw.New(c, 4)
	w.Play(12)
	var stop int32
	for g := 0; g < 3; g++ {
		g := g
		c.Go(func() {
			for k := 0; k < 400 && atomic.LoadInt32(&stop) == 0; k++ {
				ctx := context.Background()
				if g == 1 && len(w.Live) > 0 {
					ctx = monkit.SpanFromCtx(w.Live[0].S)
				}
				exit := w.Fns[k%len(w.Fns)].F.Task(&ctx, "churn\"]", k)
				monkit.SpanFromCtx(ctx).Annotate("a\"", "\n")
				w.Fns[(k+1)%len(w.Fns)].F.Task(&ctx, g)(nil)
				var err error
				if k%3 == 0 {
					err = &pw.Self{N: "<\"", Text: "x"}
				}
				exit(&err)
			}
		})
	}
	for k := 0; k < 3; k++ {
		for name, f := range map[string]func(*monkit.Registry, io.Writer) error{
			"SpansDot": present.SpansDot, "FuncsDot": present.FuncsDot} {
			text := render(c, name, func(o io.Writer) error { return f(w.Reg, o) })
			g, err := parseDot(text)
			if err != nil {
				c.Fatalf("%s during calls is not DOT: %v", name, err)
			}
			if name == "FuncsDot" {
				for _, fn := range w.Fns {
					if n := g.Nodes[fmt.Sprintf("f%d", fn.F.Id())]; n == nil || n.Count != 1 {
						c.Failf("FuncsDot during calls: node of %q: %v", fn.Full(), n)
					}
				}
			} else {
				for _, s := range w.Live {
					stay := true
					for p := s.Parent; p != nil; p = p.Parent {
						stay = stay && !p.Done
					}
					if n := g.Nodes[fmt.Sprintf("f%d", s.S.Id())]; stay && (n == nil || n.Count != 1) {
						c.Failf("SpansDot during calls: node of staying span %d: %v", s.Idx, n)
					}
				}
			}
			c.SigN(uint64(len(g.Nodes))<<16 + uint64(len(g.Edges)))
			c.Events(len(g.Nodes))
		}
		for name, f := range map[string]func(*monkit.Registry, io.Writer) error{
			"SpansText": present.SpansText, "FuncsText": present.FuncsText, "StatsText": present.StatsText} {
			text := render(c, name, func(o io.Writer) error { return f(w.Reg, o) })
			c.SigN(uint64(len(text)))
		}
	}
	atomic.StoreInt32(&stop, 1)
	c.Wait()
}

// together renders several worlds at the same time.
func together(c *vh.C) {
	var rs []pw.Rendering
	for i := 0; i < 2; i++ {
		w := pw.New(c, 1+c.Rng.Intn(3))
		w.Play(5 + c.Rng.Intn(15))
		for name, f := range map[string]func(*monkit.Registry, io.Writer) error{
			"SpansDot": present.SpansDot, "FuncsDot": present.FuncsDot, "SpansText": present.SpansText,
			"FuncsText": present.FuncsText, "StatsText": present.StatsText} {
			f := f
			rs = append(rs, pw.Rendering{What: name, F: func(o io.Writer) error { return f(w.Reg, o) }})
		}
		for k := 0; k < 3; k++ {
			list, sps := w.Pick()
			m := map[*monkit.Span]*pw.Sp{}
			for _, s := range sps {
				m[s.S] = s
			}
			rs = append(rs, pw.Rendering{What: "SpansToSVG", F: func(o io.Writer) error {
				return present.SpansToSVG(o, append([]*collect.FinishedSpan(nil), list...))
			}, Check: func(text string) { checkSVGText(c, text, list, m) }})
		}
	}
	pw.Together(c, rs)
}

func TestCheck(t *testing.T) {
	vh.Bubble(t, "C19", func(h *vh.H) {
		h.Seq("big", h.N(9), big)
		h.Seq("world", h.N(100), world)
		h.Seq("pictures", h.N(120), pictures)
		h.Seq("stats", h.N(300), statsText)
		h.Conc("racing", h.N(30), racing)
		h.Conc("together", h.N(40), together)
	})
}
