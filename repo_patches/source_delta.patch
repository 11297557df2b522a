From 61422dab3df5c30f11e5de697bcd01b170f66ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:05 +0000
Subject: [PATCH 01/32] fix: TagSet.String no longer races when a tag set is
 shared

The cached string form was read and written without synchronization.
---
 tags.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..4733f8a 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,7 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+	str atomic.Pointer[string] // cached string form
 }
 
 // Get returns the value associated with the key.
@@ -99,12 +100,14 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
-		var builder strings.Builder
-		t.writeTags(&builder)
-		t.str = builder.String()
+	if str := t.str.Load(); str != nil {
+		return *str
 	}
-	return t.str
+	var builder strings.Builder
+	t.writeTags(&builder)
+	str := builder.String()
+	t.str.Store(&str)
+	return str
 }
 
 // writeTags writes the tags in the tag set to the builder.
-- 
2.43.0


From 1b9c5cefe7df263e51efb89b83d7749bc99a50b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:54 +0000
Subject: [PATCH 02/32] fix: quantiles of a reset distribution are 0 until
 something is observed

Query on an empty distribution returned the first slot of the stale reservoir.
---
 distgen.go.m4 | 3 +++
 durdist.go    | 3 +++
 floatdist.go  | 3 +++
 intdist.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..7e5a2c0 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -129,6 +129,9 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return _TYPE_`(d.reservoir[0])'
 	}
diff --git a/durdist.go b/durdist.go
index 4d2a281..354021e 100644
--- a/durdist.go
+++ b/durdist.go
@@ -129,6 +129,9 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return time.Duration(d.reservoir[0])
 	}
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..f90ccfa 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -128,6 +128,9 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return float64(d.reservoir[0])
 	}
diff --git a/intdist.go b/intdist.go
index 07817ac..050cc3d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -128,6 +128,9 @@ func (d *IntDist) Query(quantile float64) int64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return int64(d.reservoir[0])
 	}
-- 
2.43.0


From 6083e6c932fa16db6fbd5c7d90a77af57f5b70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:58 +0000
Subject: [PATCH 03/32] fix: quantiles and reservoir averages stay within the
 observed range

The reservoir keeps float32 values, and converting one that had been rounded up
past the largest int64 or Duration back gave the smallest one instead.
---
 distgen.go.m4 | 22 +++++++++++++++++-----
 durdist.go    | 22 +++++++++++++++++-----
 floatdist.go  | 22 +++++++++++++++++-----
 intdist.go    | 22 +++++++++++++++++-----
 4 files changed, 68 insertions(+), 20 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 7e5a2c0..bd1e986 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -118,7 +118,7 @@ func (d *_NAME_`Dist') ReservoirAverage() _TYPE_ {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return _TYPE_`(sum / float32(amount))'
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -133,7 +133,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		return 0
 	}
 	if rlen < 2 {
-		return _TYPE_`(d.reservoir[0])'
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -143,10 +143,10 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 	}
 
 	if quantile <= 0 {
-		return _TYPE_`(reservoir[0])'
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return _TYPE_`(reservoir[rlen-1])'
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -154,7 +154,19 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return _TYPE_`(prior + diff*(float64(reservoir[idx+1])-prior))'
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// fromFloat64 converts a value computed from the reservoir, which only has
+// float32 precision, without leaving the range of the observed values.
+func (d *_NAME_`Dist') fromFloat64(v float64) _TYPE_ {
+	if v <= float64(d.Low) {
+		return d.Low
+	}
+	if v >= float64(d.High) {
+		return d.High
+	}
+	return _TYPE_`(v)'
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/durdist.go b/durdist.go
index 354021e..ad0e264 100644
--- a/durdist.go
+++ b/durdist.go
@@ -118,7 +118,7 @@ func (d *DurationDist) ReservoirAverage() time.Duration {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return time.Duration(sum / float32(amount))
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -133,7 +133,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		return 0
 	}
 	if rlen < 2 {
-		return time.Duration(d.reservoir[0])
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -143,10 +143,10 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 	}
 
 	if quantile <= 0 {
-		return time.Duration(reservoir[0])
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return time.Duration(reservoir[rlen-1])
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -154,7 +154,19 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return time.Duration(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// fromFloat64 converts a value computed from the reservoir, which only has
+// float32 precision, without leaving the range of the observed values.
+func (d *DurationDist) fromFloat64(v float64) time.Duration {
+	if v <= float64(d.Low) {
+		return d.Low
+	}
+	if v >= float64(d.High) {
+		return d.High
+	}
+	return time.Duration(v)
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/floatdist.go b/floatdist.go
index f90ccfa..fe01b87 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -117,7 +117,7 @@ func (d *FloatDist) ReservoirAverage() float64 {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return float64(sum / float32(amount))
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -132,7 +132,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		return 0
 	}
 	if rlen < 2 {
-		return float64(d.reservoir[0])
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -142,10 +142,10 @@ func (d *FloatDist) Query(quantile float64) float64 {
 	}
 
 	if quantile <= 0 {
-		return float64(reservoir[0])
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return float64(reservoir[rlen-1])
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -153,7 +153,19 @@ func (d *FloatDist) Query(quantile float64) float64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return float64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// fromFloat64 converts a value computed from the reservoir, which only has
+// float32 precision, without leaving the range of the observed values.
+func (d *FloatDist) fromFloat64(v float64) float64 {
+	if v <= float64(d.Low) {
+		return d.Low
+	}
+	if v >= float64(d.High) {
+		return d.High
+	}
+	return float64(v)
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/intdist.go b/intdist.go
index 050cc3d..9047955 100644
--- a/intdist.go
+++ b/intdist.go
@@ -117,7 +117,7 @@ func (d *IntDist) ReservoirAverage() int64 {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return int64(sum / float32(amount))
+	return d.fromFloat64(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -132,7 +132,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 		return 0
 	}
 	if rlen < 2 {
-		return int64(d.reservoir[0])
+		return d.fromFloat64(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -142,10 +142,10 @@ func (d *IntDist) Query(quantile float64) int64 {
 	}
 
 	if quantile <= 0 {
-		return int64(reservoir[0])
+		return d.fromFloat64(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return int64(reservoir[rlen-1])
+		return d.fromFloat64(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -153,7 +153,19 @@ func (d *IntDist) Query(quantile float64) int64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return int64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// fromFloat64 converts a value computed from the reservoir, which only has
+// float32 precision, without leaving the range of the observed values.
+func (d *IntDist) fromFloat64(v float64) int64 {
+	if v <= float64(d.Low) {
+		return d.Low
+	}
+	if v >= float64(d.High) {
+		return d.High
+	}
+	return int64(v)
 }
 
 // Copy returns a full copy of the entire distribution.
-- 
2.43.0


From 21e36680ae671b2e7820be8cc40c310411d94e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 04/32] fix: StatsJSON writes null for NaN and infinite values

They made the rendering stop with an error, for instance whenever a Counter was
registered but not yet used.
---
 present/stats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..e3e7663 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,12 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsonVal interface{} = val
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			// JSON has no representation for these.
+			jsonVal = nil
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonVal})
 	})
 	return lw.done()
 }
-- 
2.43.0


From 012a1f0f843fedb6590ff3b1c1a540d9f8003fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:59 +0000
Subject: [PATCH 05/32] fix: SpansToSVG no longer divides by zero for
 zero-length traces

---
 present/trace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..18b770c 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,8 +270,11 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		total := maxEnd.UnixNano() - minStart.UnixNano()
+		if total <= 0 {
+			return 0
+		}
+		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From ef425d36576f1b08d92b692a7f6c17efab89cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:02 +0000
Subject: [PATCH 06/32] fix: SpansToSVG positions spans of very long traces
 correctly

Multiplying the nanoseconds by the graph width overflowed after 89 days.
---
 present/trace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index 18b770c..cf43a2f 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -274,7 +274,7 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 		if total <= 0 {
 			return 0
 		}
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
+		return int(float64(t.UnixNano()-minStart.UnixNano()) * graphWidth / float64(total))
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 1a9f4795cc142a5cfad213faad635ae2699da6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:05 +0000
Subject: [PATCH 07/32] fix: SpansToSVG no longer draws spans on top of
 outlived ancestors' siblings

The row layout only looked at a span's own and its direct children's finish
times, so a grandchild that outlived both could be drawn over a later span.
---
 present/trace.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index cf43a2f..c526248 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -168,15 +168,28 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 				out[pid] = new(spanInformation)
 			}
 			out[pid].Children = append(out[pid].Children, id)
-
-			if span.Finish.After(out[pid].LargestTime) {
-				out[pid].LargestTime = span.Finish
-			}
+		}
+	}
+	for _, si := range out {
+		if si.Parent == 0 {
+			computeLargestTime(out, si)
 		}
 	}
 	return out
 }
 
+// computeLargestTime makes sure that si.LargestTime covers all descendants,
+// some of which may have finished after their ancestors.
+func computeLargestTime(spanTree map[int64]*spanInformation, si *spanInformation) {
+	for _, child := range si.Children {
+		csi := spanTree[child]
+		computeLargestTime(spanTree, csi)
+		if csi.LargestTime.After(si.LargestTime) {
+			si.LargestTime = csi.LargestTime
+		}
+	}
+}
+
 func computeLayoutInformation(spans []*collect.FinishedSpan) (map[int64]*spanInformation, int) {
 	spanTree := computeSpanTree(spans)
 	for _, span := range spans {
-- 
2.43.0


From 448f490119c63d8050747dbf85ee48a867a151d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:08 +0000
Subject: [PATCH 08/32] fix: FuncsText returns write errors that happen in the
 parents list

---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From d69e947d3add771fe8f99e5ab9259439561fffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:45 +0000
Subject: [PATCH 09/32] fix: an SVG trace query that needed keep-alives is
 still valid XML

The keep-alive newlines came before the XML declaration, which is only allowed
at the very start of a document.
---
 present/trace.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index c526248..bfc8691 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -35,10 +35,14 @@ const (
 	fontOffset = int(barHeight * .2)
 )
 
+// xmlDeclaration has to be the very first thing in the document, so queries
+// must write it before any keep-alive.
+const xmlDeclaration = `<?xml version="1.0" standalone="no"?>
+`
+
 var (
 	svgHeader = template.Must(template.New("header").Parse(
-		`<?xml version="1.0" standalone="no"?>
-<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
+		`<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
   "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">
 <svg version="1.1" xmlns="http://www.w3.org/2000/svg"
   xmlns:xlink="http://www.w3.org/1999/xlink"
@@ -258,6 +262,13 @@ func computeRow(spanTree map[int64]*spanInformation, si *spanInformation, starti
 // SpansToSVG takes a list of FinishedSpans and writes them to w in SVG format.
 // It draws a trace using the Spans where the Spans are ordered by start time.
 func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
+	if _, err := io.WriteString(w, xmlDeclaration); err != nil {
+		return err
+	}
+	return spansToSVG(w, spans)
+}
+
+func spansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	var minStart, maxEnd time.Time
 
 	byId := make(map[int64]*collect.FinishedSpan)
@@ -408,13 +419,16 @@ func unwrapError(err error) error {
 // 'matcher' to 'w' in SVG format.
 func TraceQuerySVG(reg *monkit.Registry, w io.Writer,
 	matcher func(*monkit.Span) bool) error {
+	if _, err := io.WriteString(w, xmlDeclaration); err != nil {
+		return err
+	}
 	spans, err := watchForSpansWithKeepalive(context.TODO(),
 		reg, w, matcher, []byte("\n"))
 	if err != nil {
 		return err
 	}
 
-	return SpansToSVG(w, spans)
+	return spansToSVG(w, spans)
 
 }
 
-- 
2.43.0


From 8e7d989e4b173dca854fda738977a653966a73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 10/32] fix: trace query keep-alives reach the client

They were held back by the output buffering of FromRequest and of net/http, so
they neither kept the connection alive nor noticed that the client was gone.
---
 present/path.go  |  5 ++---
 present/trace.go |  3 +--
 present/utils.go | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..0c85d6a 100644
--- a/present/path.go
+++ b/present/path.go
@@ -92,7 +92,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 		unbuffered := f
 		f = func(w io.Writer) (err error) {
 			buf := bufio.NewWriter(w)
-			err = unbuffered(buf)
+			err = unbuffered(flushWriter{Writer: buf, dest: w})
 			if err != nil {
 				return err
 			}
@@ -225,8 +225,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 				}
 
 				ctx, stop := keepAlive(context.TODO(), func(context.Context) error {
-					_, err := w.Write([]byte("\n"))
-					return err
+					return writeAndFlush(w, []byte("\n"))
 				})
 				defer stop()
 
diff --git a/present/trace.go b/present/trace.go
index bfc8691..251ece2 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -460,8 +460,7 @@ func watchForSpansWithKeepalive(ctx context.Context, reg *monkit.Registry, w io.
 	spans []*collect.FinishedSpan, writeErr error) {
 
 	ctx, stop := keepAlive(ctx, func(context.Context) error {
-		_, err := w.Write(keepalive)
-		return err
+		return writeAndFlush(w, keepalive)
 	})
 	defer stop()
 
diff --git a/present/utils.go b/present/utils.go
index a2d3d7d..8ebec4d 100644
--- a/present/utils.go
+++ b/present/utils.go
@@ -15,8 +15,10 @@
 package present
 
 import (
+	"bufio"
 	"context"
 	"fmt"
+	"io"
 	"sync"
 	"time"
 )
@@ -86,6 +88,38 @@ func keepAlive(ctx context.Context, ping func(context.Context) error) (
 	}
 }
 
+// flushWriter is a bufio.Writer that when flushed also flushes the writer it
+// writes to, if possible.
+type flushWriter struct {
+	*bufio.Writer
+	dest io.Writer
+}
+
+func (w flushWriter) Flush() error {
+	if err := w.Writer.Flush(); err != nil {
+		return err
+	}
+	return flush(w.dest)
+}
+
+func flush(w io.Writer) error {
+	switch w := w.(type) {
+	case interface{ Flush() error }:
+		return w.Flush()
+	case interface{ Flush() }:
+		w.Flush()
+	}
+	return nil
+}
+
+// writeAndFlush makes sure that what it writes doesn't linger in a buffer.
+func writeAndFlush(w io.Writer, data []byte) error {
+	if _, err := w.Write(data); err != nil {
+		return err
+	}
+	return flush(w)
+}
+
 func catchPanics(cb func(context.Context) error) func(context.Context) error {
 	return func(ctx context.Context) (err error) {
 		defer func() {
-- 
2.43.0


From cffd79a6d4e9e9018c215a71ed6f6c91b4853254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:34 +0000
Subject: [PATCH 11/32] fix: sources with different names and tags are never
 mixed up

The name and the tags were joined into one string without escaping, so that for
instance IntVal("a,k=v") and IntVal("a", k=v) were the same source.
---
 scope.go | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..5f23321 100644
--- a/scope.go
+++ b/scope.go
@@ -16,6 +16,7 @@ package monkit
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"sync"
 )
@@ -26,7 +27,7 @@ type Scope struct {
 	r       *Registry
 	name    string
 	mtx     sync.RWMutex
-	sources map[string]StatSource
+	sources map[sourceKey]StatSource
 	chains  []StatSource
 }
 
@@ -34,7 +35,7 @@ func newScope(r *Registry, name string) *Scope {
 	return &Scope{
 		r:       r,
 		name:    name,
-		sources: map[string]StatSource{}}
+		sources: map[sourceKey]StatSource{}}
 }
 
 // Func retrieves or creates a Func named after the currently executing
@@ -43,7 +44,7 @@ func (s *Scope) Func() *Func {
 	return s.FuncNamed(callerFunc(0))
 }
 
-func (s *Scope) newSource(name string, constructor func() StatSource) (
+func (s *Scope) newSource(name sourceKey, constructor func() StatSource) (
 	rv StatSource) {
 
 	s.mtx.RLock()
@@ -67,23 +68,35 @@ func (s *Scope) newSource(name string, constructor func() StatSource) (
 	return ss
 }
 
-func sourceName(namespace, name string, tags []SeriesTag) string {
-	var sourceNameSize int
-	sourceNameSize += len(namespace) + len(name) + len(tags)*2
+// sourceKey identifies a source within a Scope.
+type sourceKey struct {
+	namespace string
+	name      string
+	tags      string
+}
+
+func sourceName(namespace, name string, tags []SeriesTag) sourceKey {
+	key := sourceKey{namespace: namespace, name: name}
+	if len(tags) == 0 {
+		return key
+	}
+	var tagsSize int
 	for _, tag := range tags {
-		sourceNameSize += len(tag.Key) + len(tag.Val)
+		tagsSize += len(tag.Key) + len(tag.Val) + 8
 	}
-	var sourceName strings.Builder
-	sourceName.Grow(sourceNameSize)
-	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	var encoded strings.Builder
+	encoded.Grow(tagsSize)
 	for _, tag := range tags {
-		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
-		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		// the lengths make sure that different tags are never the same string
+		encoded.WriteString(strconv.Itoa(len(tag.Key)))
+		encoded.WriteByte(',')
+		encoded.WriteString(strconv.Itoa(len(tag.Val)))
+		encoded.WriteByte(',')
+		encoded.WriteString(tag.Key)
+		encoded.WriteString(tag.Val)
 	}
-	return sourceName.String()
+	key.tags = encoded.String()
+	return key
 }
 
 // FuncNamed retrieves or creates a Func named using the given name and
@@ -268,14 +281,15 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	key := sourceName("", name, nil)
+	if source, exists := s.sources[key]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[key] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
@@ -327,6 +341,6 @@ func (s *Scope) Name() string { return s.name }
 var _ StatSource = (*Scope)(nil)
 
 type namedSource struct {
-	name   string
+	name   sourceKey
 	source StatSource
 }
-- 
2.43.0


From 1bdbcba45ca388e3059081b4f5d690bb18022227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:38 +0000
Subject: [PATCH 12/32] fix: reporting a conflicting source kind doesn't race
 with the source's use

Formatting the other source with %#v read all of its internals without its
locks, and could crash the process with a concurrent map access.
---
 scope.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scope.go b/scope.go
index 5f23321..d6289b2 100644
--- a/scope.go
+++ b/scope.go
@@ -111,7 +111,7 @@ func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
 	})
 	f, ok := source.(*Func)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return f
@@ -139,7 +139,7 @@ func (s *Scope) Meter(name string, tags ...SeriesTag) *Meter {
 	})
 	m, ok := source.(*Meter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -158,7 +158,7 @@ func (s *Scope) DiffMeter(name string, m1, m2 *Meter, tags ...SeriesTag) {
 		return NewDiffMeter(NewSeriesKey(name).WithTags(tags...), m1, m2)
 	})
 	if _, ok := source.(*DiffMeter); !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 }
@@ -170,7 +170,7 @@ func (s *Scope) IntVal(name string, tags ...SeriesTag) *IntVal {
 	})
 	m, ok := source.(*IntVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -189,7 +189,7 @@ func (s *Scope) FloatVal(name string, tags ...SeriesTag) *FloatVal {
 	})
 	m, ok := source.(*FloatVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -208,7 +208,7 @@ func (s *Scope) BoolVal(name string, tags ...SeriesTag) *BoolVal {
 	})
 	m, ok := source.(*BoolVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -227,7 +227,7 @@ func (s *Scope) StructVal(name string, tags ...SeriesTag) *StructVal {
 	})
 	m, ok := source.(*StructVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -240,7 +240,7 @@ func (s *Scope) DurationVal(name string, tags ...SeriesTag) *DurationVal {
 	})
 	m, ok := source.(*DurationVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -253,7 +253,7 @@ func (s *Scope) Timer(name string, tags ...SeriesTag) *Timer {
 	})
 	m, ok := source.(*Timer)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -266,7 +266,7 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 	})
 	m, ok := source.(*Counter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -284,7 +284,7 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 	key := sourceName("", name, nil)
 	if source, exists := s.sources[key]; exists {
 		if _, ok := source.(gauge); !ok {
-			panic(fmt.Sprintf("%s already used for another stats source: %#v",
+			panic(fmt.Sprintf("%s already used for another stats source: %T",
 				name, source))
 		}
 	}
-- 
2.43.0


From d3c577c997f08eee128a11dafbea9eddfe418acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:04 +0000
Subject: [PATCH 13/32] fix: trace and parent ids with the highest bit set
 survive the traceparent header

They were written with a minus sign, which made the header unparsable.
---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From f0088d67641a2162b86d7eb6dca4e62835c7fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:07 +0000
Subject: [PATCH 14/32] fix: TraceHandler passes the context that span
 observers returned to the handler

---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 861304d..f257889 100644
--- a/http/server.go
+++ b/http/server.go
@@ -66,7 +66,7 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
 		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
 	}
-	t.handler.ServeHTTP(wrapped, request.WithContext(s))
+	t.handler.ServeHTTP(wrapped, request.WithContext(ctx))
 
 	s.Annotate("http.responsecode", fmt.Sprint(statusCode()))
 }
-- 
2.43.0


From 79e378ee65dbb9c7e25691030f6d33533e05095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:18 +0000
Subject: [PATCH 15/32] fix: the HTTP middleware records the status that was
 sent, not a later one

WriteHeader calls after the header was sent by an earlier call or by flushing
have no effect, but replaced the recorded status, and an informational status
hid the implicit 200.
---
 http/http.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/http/http.go b/http/http.go
index 9503f19..3a81297 100644
--- a/http/http.go
+++ b/http/http.go
@@ -37,24 +37,45 @@ func Wrap(w http.ResponseWriter) (http.ResponseWriter, func() int) {
 			http.Flusher
 		}{
 			ResponseWriter: observer,
-			Flusher:        flusher,
+			Flusher:        flushObserver{observer: observer, flusher: flusher},
 		}, observer.StatusCode
 	}
 	return observer, observer.StatusCode
 }
 
+// flushObserver is the http.Flusher of a responseWriterObserver.
+type flushObserver struct {
+	observer *responseWriterObserver
+	flusher  http.Flusher
+}
+
+func (f flushObserver) Flush() {
+	// flushing sends the header if that didn't happen yet
+	if f.observer.sc == 0 {
+		f.observer.sc = 200
+	}
+	f.observer.final = true
+	f.flusher.Flush()
+}
+
 type responseWriterObserver struct {
-	w  http.ResponseWriter
-	sc int
+	w     http.ResponseWriter
+	sc    int
+	final bool
 }
 
 func (w *responseWriterObserver) WriteHeader(statusCode int) {
-	w.sc = statusCode
+	// only the first final status is sent, though it can be preceded by any
+	// number of informational ones.
+	if !w.final {
+		w.sc = statusCode
+		w.final = statusCode >= 200 || statusCode == http.StatusSwitchingProtocols
+	}
 	w.w.WriteHeader(statusCode)
 }
 
 func (w *responseWriterObserver) Write(p []byte) (n int, err error) {
-	if w.sc == 0 {
+	if !w.final && w.sc < 200 {
 		w.sc = 200
 	}
 	return w.w.Write(p)
-- 
2.43.0


From 7edfa53b107d7943cefc03d48c32d42b1a6dd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:58 +0000
Subject: [PATCH 16/32] fix: error name handlers may use the function whose
 error they name

They were called with the function's mutex held, which deadlocked, and blocked
the function forever if they panicked.
---
 funcstats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..3b4c8a3 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,11 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	var errorName string
+	if !panicked && err != nil {
+		// this calls user code, so the mutex must not be held
+		errorName = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +105,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errorName] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From 4e44ef4c5e7eab00e52633da6dfc06aaebec4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:01 +0000
Subject: [PATCH 17/32] fix: the runtime source counts each garbage collection
 once and doesn't race

lastNumGC was never updated, so every readout inserted the same pause again, and
concurrent readouts used the distribution without synchronization.
---
 environment/runtime.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..93ae4cc 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -31,6 +32,7 @@ import (
 func Runtime() monkit.StatSource {
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
+	var mtx sync.Mutex // protects durDist and lastNumGC
 
 	return monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
 		cb(monkit.NewSeriesKey("goroutines"), "count", float64(runtime.NumGoroutine()))
@@ -44,10 +46,14 @@ func Runtime() monkit.StatSource {
 		{
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
+			mtx.Lock()
 			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			dist := durDist.Copy()
+			mtx.Unlock()
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From b5ebfdad6d2f8699bff321512d608d8fd9dce592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:04 +0000
Subject: [PATCH 18/32] fix: proc_stat works for executables with spaces in
 their name

---
 environment/proc_linux.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/environment/proc_linux.go b/environment/proc_linux.go
index 25cdcaf..edb4fdf 100644
--- a/environment/proc_linux.go
+++ b/environment/proc_linux.go
@@ -15,6 +15,7 @@
 package environment
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 
@@ -87,9 +88,20 @@ func readProcSelfStat(s *procSelfStat) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Sscanf(string(data), "%d %s %c %d %d %d %d %d %d %d %d "+
+	// the command name is in parentheses and may contain anything, even
+	// spaces and parentheses.
+	open, end := bytes.IndexByte(data, '('), bytes.LastIndexByte(data, ')')
+	if open < 0 || end < open {
+		return fmt.Errorf("unexpected /proc/self/stat format")
+	}
+	s.Comm = string(data[open : end+1])
+	_, err = fmt.Sscanf(string(data[:open]), "%d ", &s.Pid)
+	if err != nil {
+		return err
+	}
+	_, err = fmt.Sscanf(string(data[end+1:]), " %c %d %d %d %d %d %d %d %d "+
 		"%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d "+
-		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.Comm, &s.State, &s.Ppid,
+		"%d %d %d %d %d %d %d %d %d %d", &s.State, &s.Ppid,
 		&s.Pgrp, &s.Session, &s.TtyNr, &s.Tpgid, &s.Flags, &s.Minflt, &s.Cminflt,
 		&s.Majflt, &s.Cmajflt, &s.Utime, &s.Stime, &s.Cutime, &s.Cstime,
 		&s.Priority, &s.Nice, &s.NumThreads, &s.Itrealvalue, &s.Starttime,
-- 
2.43.0


From da254a1ff00868562fc5f3cfde9bc74cef8f2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:43 +0000
Subject: [PATCH 19/32] fix: struct stats skip nil pointers instead of
 panicking

---
 struct.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..a46d679 100644
--- a/struct.go
+++ b/struct.go
@@ -32,6 +32,9 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 // across all float64-castable and bool-castable fields of the struct.
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
+	if !val.IsValid() {
+		return emptyStatSource{}
+	}
 
 	typ := val.Type()
 	if typ.Kind() != reflect.Struct {
@@ -42,6 +45,9 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	nextField:
 		for i := 0; i < typ.NumField(); i++ {
 			field := deref(val.Field(i))
+			if !field.IsValid() {
+				continue
+			}
 			field_type := field.Type()
 
 			parts := strings.Split(typ.Field(i).Tag.Get("monkit"), ",")
@@ -70,9 +76,10 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	})
 }
 
-// if val is a pointer, deref until it isn't
+// if val is a pointer, deref until it isn't. the result is not valid if there
+// was a nil pointer.
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From b3ebfc6297b40447b3ea3cc3cbbaab31fbd71ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:47 +0000
Subject: [PATCH 20/32] fix: Package works in functions that the compiler
 inlines

---
 callers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..6645aad 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,11 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	// N.B.: frame.Func is nil for inlined functions
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0


From 85d052ec38c2dabc421f17a9ceeae51d243e8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:49 +0000
Subject: [PATCH 21/32] fix: CollectSpans removes its observer from the trace

Every call left its collector with all of its spans on the trace for as long as
the trace was in use.
---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From 7e9b9b9db7e4525f620b1edbc062d2da59444a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:18 +0000
Subject: [PATCH 22/32] fix: ObserveAllTraces no longer misses traces that are
 just starting

A new trace was reported to the trace watchers before its root span became
visible. A watcher registered in between saw it in neither place.
---
 ctx.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ctx.go b/ctx.go
index d0fad0b..c81feb3 100644
--- a/ctx.go
+++ b/ctx.go
@@ -59,6 +59,9 @@ func SpanFromCtx(ctx context.Context) *Span {
 func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 	parentId *int64) (sctx context.Context, exit func(*error)) {
 
+	// an explicitly given trace is always one that starts here
+	newTrace := trace != nil
+
 	var s, parent *Span
 	if s, ok := ctx.(*Span); ok && s != nil {
 		ctx = s.Context
@@ -73,7 +76,7 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		}
 	} else if trace == nil {
 		trace = NewTrace(NewId())
-		f.scope.r.observeTrace(trace)
+		newTrace = true
 	}
 
 	// if we're passed in an explicit parent id, then it's a remote trace,
@@ -82,8 +85,6 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		parent = nil
 	}
 
-	observer := trace.getObserver()
-
 	s = &Span{
 		id:       NewId(),
 		start:    monotime.Now(),
@@ -105,8 +106,14 @@ func newSpan(ctx context.Context, f *Func, args []interface{}, trace *Trace,
 		f.scope.r.rootSpanStart(s)
 	}
 
+	// the root span is registered already, so whoever starts to watch traces
+	// now will find the trace there if the watcher comes too late for this.
+	if newTrace {
+		f.scope.r.observeTrace(trace)
+	}
+
 	sctx = s
-	if observer != nil {
+	if observer := trace.getObserver(); observer != nil {
 		sctx = observer.Start(sctx, s)
 	}
 
@@ -254,9 +261,6 @@ func (f *Func) Task(ctx *context.Context, args ...interface{}) func(*error) {
 func (f *Func) RemoteTrace(ctx *context.Context, parentId int64, trace *Trace,
 	args ...interface{}) func(*error) {
 	ctx = cleanCtx(ctx)
-	if trace != nil {
-		f.scope.r.observeTrace(trace)
-	}
 	s, exit := newSpan(*ctx, f, args, trace, &parentId)
 	if ctx != &unparented {
 		*ctx = s
@@ -272,7 +276,6 @@ func (f *Func) ResetTrace(ctx *context.Context,
 		return nil
 	}
 	trace := NewTrace(NewId())
-	f.scope.r.observeTrace(trace)
 	s, exit := newSpan(*ctx, f, args, trace, nil)
 	if ctx != &unparented {
 		*ctx = s
-- 
2.43.0


From 303860f9ef42dc8b07f064136fb0610a1ce5e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:40 +0000
Subject: [PATCH 23/32] fix: the sampling callback of a trace query may start
 spans that match it

---
 present/path.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/present/path.go b/present/path.go
index 0c85d6a..fd03254 100644
--- a/present/path.go
+++ b/present/path.go
@@ -231,18 +231,29 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 
 				var traceMtx sync.Mutex
 				var trace *monkit.Trace
+				var sampled bool
 				collect.FindSpan(ctx, reg, func(s *monkit.Span) bool {
 					if !spanMatcher(s) {
 						return false
 					}
 					traceMtx.Lock()
-					defer traceMtx.Unlock()
-					if trace == nil {
-						trace = s.Trace()
-						trace.Set(SampledKey, true)
-						if cb, exists := trace.Get(SampledCBKey).(func(*monkit.Trace)); exists {
-							cb(trace)
-						}
+					if trace != nil {
+						defer traceMtx.Unlock()
+						return sampled
+					}
+					trace = s.Trace()
+					traceMtx.Unlock()
+
+					// the callback may start spans that match, so the lock is not
+					// held while it runs.
+					defer func() {
+						traceMtx.Lock()
+						sampled = true
+						traceMtx.Unlock()
+					}()
+					s.Trace().Set(SampledKey, true)
+					if cb, exists := s.Trace().Get(SampledCBKey).(func(*monkit.Trace)); exists {
+						cb(s.Trace())
 					}
 					return true
 				})
-- 
2.43.0


From 02e9d3137bc34d19d97ec06be4a7861d3981aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:42 +0000
Subject: [PATCH 24/32] fix: a failure to read the executable's checksum is not
 remembered forever

---
 environment/process.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/environment/process.go b/environment/process.go
index 626aca7..be640f0 100644
--- a/environment/process.go
+++ b/environment/process.go
@@ -48,16 +48,22 @@ func Process() monkit.StatSource {
 }
 
 var crcCache struct {
-	once sync.Once
-	crc  uint32
-	err  error
+	mtx   sync.Mutex
+	known bool
+	crc   uint32
 }
 
 func processCRC() (uint32, error) {
-	crcCache.once.Do(func() {
-		crcCache.crc, crcCache.err = getProcessCRC()
-	})
-	return crcCache.crc, crcCache.err
+	crcCache.mtx.Lock()
+	defer crcCache.mtx.Unlock()
+	if !crcCache.known {
+		crc, err := getProcessCRC()
+		if err != nil {
+			return 0, err
+		}
+		crcCache.crc, crcCache.known = crc, true
+	}
+	return crcCache.crc, nil
 }
 
 func getProcessCRC() (uint32, error) {
-- 
2.43.0


From faedf6e9830a9fe6b36b69273bb1a6a405cc694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:41 +0000
Subject: [PATCH 25/32] fix: concurrent readouts no longer count a garbage
 collection twice

---
 environment/runtime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 93ae4cc..ced5b8e 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -47,7 +47,7 @@ func Runtime() monkit.StatSource {
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
 			mtx.Lock()
-			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
+			if stats.NumGC > lastNumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
 				lastNumGC = stats.NumGC
 			}
-- 
2.43.0


From 1cf09fd82f47c9ea17845993feacf2c19af6cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:48 +0000
Subject: [PATCH 26/32] fix: average the reservoir in float64

The float32 sum of the retained values overflows although each of them is
finite, and the average was then reported as the highest observed value.
---
 distgen.go.m4 | 6 +++---
 durdist.go    | 6 +++---
 floatdist.go  | 6 +++---
 intdist.go    | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index bd1e986..992e7ef 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -114,11 +114,11 @@ func (d *_NAME_`Dist') ReservoirAverage() _TYPE_ {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return d.fromFloat64(float64(sum / float32(amount)))
+	return d.fromFloat64(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
diff --git a/durdist.go b/durdist.go
index ad0e264..47d6db1 100644
--- a/durdist.go
+++ b/durdist.go
@@ -114,11 +114,11 @@ func (d *DurationDist) ReservoirAverage() time.Duration {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return d.fromFloat64(float64(sum / float32(amount)))
+	return d.fromFloat64(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
diff --git a/floatdist.go b/floatdist.go
index fe01b87..e6a633b 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -113,11 +113,11 @@ func (d *FloatDist) ReservoirAverage() float64 {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return d.fromFloat64(float64(sum / float32(amount)))
+	return d.fromFloat64(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
diff --git a/intdist.go b/intdist.go
index 9047955..6f8434d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -113,11 +113,11 @@ func (d *IntDist) ReservoirAverage() int64 {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return d.fromFloat64(float64(sum / float32(amount)))
+	return d.fromFloat64(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
-- 
2.43.0


From b5e15e02777af915d964599345c65bdc794e1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 27/32] fix: don't link from the index to a path that doesn't
 exist

There is no /stats/svg.
---
 present/path.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/present/path.go b/present/path.go
index fd03254..935645e 100644
--- a/present/path.go
+++ b/present/path.go
@@ -321,7 +321,6 @@ func writeIndex(w io.Writer) error {
 
 			<dt><a href="stats">/stats</a></dt>
 			<dt><a href="stats/json">/stats/json</a></dt>
-			<dt><a href="stats/svg">/stats/svg</a></dt>
 			<dd>Statistics about all observed functions, scopes and values.</dd>
 
 			<dt><a href="trace/json">/trace/json</a></dt>
-- 
2.43.0


From 3693d82cacc3bd57c3f8330dffe20f64397b0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:03 +0000
Subject: [PATCH 28/32] fix: the clock on Windows doesn't overflow after a
 quarter of an hour

---
 monotime/monotime_windows.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monotime/monotime_windows.go b/monotime/monotime_windows.go
index 74053e5..2245615 100644
--- a/monotime/monotime_windows.go
+++ b/monotime/monotime_windows.go
@@ -17,7 +17,10 @@ var (
 
 func elapsed() time.Duration {
 	elapsed := queryPerformanceCounter() - qpcBase
-	return time.Duration(elapsed) * time.Second / (time.Duration(qpcFrequency) * time.Nanosecond)
+	// the seconds are kept apart, so that multiplying the ticks doesn't overflow
+	// after a quarter of an hour
+	return time.Duration(elapsed/qpcFrequency)*time.Second +
+		time.Duration(elapsed%qpcFrequency)*time.Second/time.Duration(qpcFrequency)
 }
 
 func queryPerformanceCounter() int64 {
-- 
2.43.0


From b78dbdaf64ae8109551827e23f5e5493e3087ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:17 +0000
Subject: [PATCH 29/32] fix: TraceRequest accepts the requests that clients
 accept

---
 http/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/http/client.go b/http/client.go
index aa2db08..f8b4316 100644
--- a/http/client.go
+++ b/http/client.go
@@ -19,7 +19,13 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 	defer scope.TaskNamed(req.Method)(&ctx)(&err)
 
 	s := monkit.SpanFromCtx(ctx)
-	s.Annotate("http.uri", req.URL.String())
+	if req.URL != nil {
+		s.Annotate("http.uri", req.URL.String())
+	}
+	if req.Header == nil {
+		// clients accept that
+		req.Header = make(http.Header)
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From 30bae7280bf94790ea2dab0ff5d40845c295a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 30/32] fix: span arguments can't break out of the tooltips of
 SVG traces

---
 present/trace.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index 251ece2..54b2e32 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -134,7 +134,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncTooltip}} Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -142,6 +142,16 @@ var (
   </g>`))
 )
 
+// jsStringEscaper escapes what is special in quoted javascript strings.
+var jsStringEscaper = strings.NewReplacer(
+	`\`, `\\`,
+	`'`, `\'`,
+	"\n", `\n`,
+	"\r", `\r`,
+	"\u2028", `\u2028`,
+	"\u2029", `\u2029`,
+)
+
 type spanInformation struct {
 	Span        *collect.FinishedSpan
 	Parent      int64
@@ -340,6 +350,7 @@ func spansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			FontSize          int
 			FuncName          string
 			FuncArgs          string
+			FuncTooltip       string
 			FuncDuration      string
 			FuncStartDuration string
 			SpanMid           int
@@ -364,6 +375,14 @@ func spansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 		}
 
 		var buf bytes.Buffer
+		err = xml.EscapeText(&buf, []byte(jsStringEscaper.Replace(
+			templateVals.FuncName+"("+templateVals.FuncArgs+")")))
+		if err != nil {
+			return err
+		}
+		templateVals.FuncTooltip = buf.String()
+
+		buf.Reset()
 		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
 		if err != nil {
 			return err
-- 
2.43.0


From bb7556769eec378ec93d9f17bbcb6121d918b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 31/32] fix: quantiles and averages of floats that are too
 large for a float32 aren't NaN

---
 distgen.go.m4 | 15 ++++++++++++---
 durdist.go    | 15 ++++++++++++---
 floatdist.go  | 15 ++++++++++++---
 intdist.go    | 15 ++++++++++++---
 4 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 992e7ef..8eae9f8 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -116,7 +116,7 @@ func (d *_NAME_`Dist') ReservoirAverage() _TYPE_ {
 	}
 	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += float64(d.reservoir[i])
+		sum += d.retained(i)
 	}
 	return d.fromFloat64(sum / float64(amount))
 }
@@ -153,8 +153,17 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 	idx := int(idx_float)
 
 	diff := idx_float - float64(idx)
-	prior := float64(reservoir[idx])
-	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+	prior := d.retained(idx)
+	if diff == 0 {
+		return d.fromFloat64(prior)
+	}
+	return d.fromFloat64(prior + diff*(d.retained(idx+1)-prior))
+}
+
+// retained returns a value of the reservoir. What is too large for a float32 is
+// infinite in there, which is nothing to calculate with.
+func (d *_NAME_`Dist') retained(idx int) float64 {
+	return float64(d.fromFloat64(float64(d.reservoir[idx])))
 }
 
 // fromFloat64 converts a value computed from the reservoir, which only has
diff --git a/durdist.go b/durdist.go
index 47d6db1..4e7e594 100644
--- a/durdist.go
+++ b/durdist.go
@@ -116,7 +116,7 @@ func (d *DurationDist) ReservoirAverage() time.Duration {
 	}
 	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += float64(d.reservoir[i])
+		sum += d.retained(i)
 	}
 	return d.fromFloat64(sum / float64(amount))
 }
@@ -153,8 +153,17 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 	idx := int(idx_float)
 
 	diff := idx_float - float64(idx)
-	prior := float64(reservoir[idx])
-	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+	prior := d.retained(idx)
+	if diff == 0 {
+		return d.fromFloat64(prior)
+	}
+	return d.fromFloat64(prior + diff*(d.retained(idx+1)-prior))
+}
+
+// retained returns a value of the reservoir. What is too large for a float32 is
+// infinite in there, which is nothing to calculate with.
+func (d *DurationDist) retained(idx int) float64 {
+	return float64(d.fromFloat64(float64(d.reservoir[idx])))
 }
 
 // fromFloat64 converts a value computed from the reservoir, which only has
diff --git a/floatdist.go b/floatdist.go
index e6a633b..bfcca41 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -115,7 +115,7 @@ func (d *FloatDist) ReservoirAverage() float64 {
 	}
 	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += float64(d.reservoir[i])
+		sum += d.retained(i)
 	}
 	return d.fromFloat64(sum / float64(amount))
 }
@@ -152,8 +152,17 @@ func (d *FloatDist) Query(quantile float64) float64 {
 	idx := int(idx_float)
 
 	diff := idx_float - float64(idx)
-	prior := float64(reservoir[idx])
-	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+	prior := d.retained(idx)
+	if diff == 0 {
+		return d.fromFloat64(prior)
+	}
+	return d.fromFloat64(prior + diff*(d.retained(idx+1)-prior))
+}
+
+// retained returns a value of the reservoir. What is too large for a float32 is
+// infinite in there, which is nothing to calculate with.
+func (d *FloatDist) retained(idx int) float64 {
+	return float64(d.fromFloat64(float64(d.reservoir[idx])))
 }
 
 // fromFloat64 converts a value computed from the reservoir, which only has
diff --git a/intdist.go b/intdist.go
index 6f8434d..fb8398d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -115,7 +115,7 @@ func (d *IntDist) ReservoirAverage() int64 {
 	}
 	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += float64(d.reservoir[i])
+		sum += d.retained(i)
 	}
 	return d.fromFloat64(sum / float64(amount))
 }
@@ -152,8 +152,17 @@ func (d *IntDist) Query(quantile float64) int64 {
 	idx := int(idx_float)
 
 	diff := idx_float - float64(idx)
-	prior := float64(reservoir[idx])
-	return d.fromFloat64(prior + diff*(float64(reservoir[idx+1])-prior))
+	prior := d.retained(idx)
+	if diff == 0 {
+		return d.fromFloat64(prior)
+	}
+	return d.fromFloat64(prior + diff*(d.retained(idx+1)-prior))
+}
+
+// retained returns a value of the reservoir. What is too large for a float32 is
+// infinite in there, which is nothing to calculate with.
+func (d *IntDist) retained(idx int) float64 {
+	return float64(d.fromFloat64(float64(d.reservoir[idx])))
 }
 
 // fromFloat64 converts a value computed from the reservoir, which only has
-- 
2.43.0


From 4d0c8d8830905c5f87992249335c9f7051318ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 32/32] fix: SVG traces whose spans claim a descendant as
 remote parent don't overlap

---
 present/trace.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 54b2e32..057d101 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -175,7 +175,7 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 			out[id].LargestTime = span.Finish
 		}
 
-		if pid, ok := span.Span.ParentId(); ok {
+		if pid, ok := span.Span.ParentId(); ok && !isAncestor(out, id, pid) {
 			out[id].Parent = pid
 
 			if pedges := out[pid]; pedges == nil {
@@ -192,6 +192,19 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 	return out
 }
 
+// isAncestor returns whether the span with id is an ancestor of the one with
+// pid, or the same. Remote parents can have any id, so it's possible that a
+// span's parent claims to be one of its descendants.
+func isAncestor(spanTree map[int64]*spanInformation, id, pid int64) bool {
+	if len(spanTree[id].Children) == 0 {
+		return id == pid
+	}
+	for pid != 0 && pid != id && spanTree[pid] != nil {
+		pid = spanTree[pid].Parent
+	}
+	return id == pid
+}
+
 // computeLargestTime makes sure that si.LargestTime covers all descendants,
 // some of which may have finished after their ancestors.
 func computeLargestTime(spanTree map[int64]*spanInformation, si *spanInformation) {
@@ -228,8 +241,8 @@ func includeSpanInLayoutInformation(spanTree map[int64]*spanInformation, span *c
 	}
 	si.Layout = true
 
-	parSpanId, ok := span.Span.ParentId()
-	if !ok || spanTree[parSpanId] == nil {
+	parSpanId := si.Parent
+	if parSpanId == 0 || spanTree[parSpanId] == nil {
 		return
 	}
 
-- 
2.43.0

