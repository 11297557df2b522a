#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Every monitored call is counted exactly once",
  "Once a set of monitored calls has returned, however nested or concurrent they were, each call is counted in its function's statistics exactly once: as a success, as an error under its error name, or as a panic; total = successes + errors + panics, failures = errors + panics, and the success and failure time distributions hold one sample per success and per failure. While calls run, the current count equals the number of calls in progress and never goes negative, and highwater equals the largest number that were ever in progress at once. A reset done while nothing is running restarts all of these from zero.",
  ["schedules", "histories"], "all interleavings of any number of concurrent and nested monitored calls (Task, TaskNamed, Func.Task, RemoteTrace, ResetTrace, Observe) with success, error and panic outcomes",
  "TestCallers checks two sequential calls (one success, one error); no test runs monitored calls concurrently, panics, or reads current/highwater.",
  ["funcstats.go", "ctx.go", "funcset.go", "func.go"],
  [("atomic current/highwater with CAS-max loop", "funcstats.go start/end"), ("outcome counters under one mutex", "funcstats.go end"), ("exit closure runs end exactly once", "ctx.go newSpan")],
  ["Func.Success/Errors/Panics/Current/Highwater", "Func.SuccessTimes/FailureTimes", "Stats() fields successes, errors, panics, failures, total, current, highwater, count"],
  [("current, highwater", "in-progress calls and their maximum", "funcstats.go"), ("errors, panics, successTimes, failureTimes", "outcome accounting", "funcstats.go")])

p("C02", "Monitoring never changes what the monitored code does",
  "A monitored function's error result is left exactly as the function set it, and a panic leaves the function with the identical panic value after being recorded, whatever observers are installed. The context the function continues with keeps the caller's values, deadline, cancellation and error. A nil context, a nil context pointer and a nil error pointer are all accepted.",
  ["inputs", "histories"], "all error values, panic values (including runtime errors and nested/deferred panics), context chains and observer sets",
  "No test panics inside a monitored function, checks the returned error identity, or passes contexts with values or deadlines through Task.",
  ["ctx.go", "span.go", "funcstats.go", "task.go"],
  [("recover then re-panic with the same value", "ctx.go newSpan exit closure"), ("Span embeds the caller's context", "ctx.go Span, span.go Value"), ("nil handling", "ctx.go cleanCtx")],
  ["error/panic seen by the caller of the monitored function", "ctx.Value/Deadline/Done/Err inside it"])

p("C03", "Spans form exactly the call tree and share its trace",
  "A monitored call's span has as parent the span carried by the context it was given and belongs to that span's trace; with no span in the context (or after ResetContextSpan, or with ResetTrace) it starts a new root in a fresh trace, and RemoteTrace gives a local root in the supplied trace with the supplied remote parent id (without a supplied trace: in the context's, or a fresh one). Without a context pointer nothing is carried anywhere. A trace's span count always equals the number of its unfinished spans. The span, trace and function ids produced are never negative and never repeat within a process, and a span reports the arguments, function and start time of its call.",
  ["schedules", "histories", "inputs"], "all nestings, goroutine fan-outs, context derivations and mixes of Task/ResetTrace/RemoteTrace/ResetContextSpan",
  "TestLateObserver nests two spans on one goroutine; ids, parent links, span counts and argument rendering are never checked under concurrency or through derived contexts.",
  ["ctx.go", "span.go", "trace.go", "id.go"],
  [("parent/trace selection from context", "ctx.go newSpan"), ("incrementSpans/decrementSpans", "trace.go"), ("atomic id counter with odd increment", "id.go NewId")],
  ["Span.Id/ParentId/Trace/Func/Args/Start", "SpanFromCtx", "Trace.Spans", "NewId"],
  [("spanCount", "unfinished spans of a trace", "trace.go")])

p("C04", "The live-span view is exact",
  "Whenever no span is just starting or finishing, walking all spans visits every unfinished span exactly once and no finished span; the root view lists exactly the unfinished spans that have no local parent or whose parent has already finished, and exactly the latter report being orphaned. A span's children view lists exactly its unfinished direct children. Roots and children are listed by full function name and then by id. A span that stays unfinished together with all of its local ancestors during a whole walk is visited by that walk even while other spans start and finish concurrently, and so is one that stays unfinished while its parent, itself in the root view, finishes: at every moment it is reachable through the parent or as a root.",
  ["schedules", "histories"], "all orders of starts and finishes (parents before children, children before parents, concurrently) and walks at any time",
  "TestLateObserver reads RootSpans once with two live nested spans; orphaning and concurrent start/finish of parent and child are untested.",
  ["registry.go", "span.go", "spanbag.go", "ctx.go", "spinlock.go"],
  [("done/orphaned handshake under the span spinlock", "span.go addChild/orphan, ctx.go exit closure"), ("registry root and orphan sets", "registry.go"), ("child bag with single-element fast path", "spanbag.go")],
  ["Registry.RootSpans/AllSpans", "Span.Children", "Span.Orphaned"],
  [("spans, orphans", "live roots and live orphans", "registry.go"), ("children, done, orphaned", "per-span state", "ctx.go Span")])

p("C05", "Span observers see each span start and finish exactly once",
  "While an observer is registered on a trace it is told of each span of that trace exactly once when it starts and exactly once when it finishes (only the finish for spans that started before registration), with the span's actual error, panic flag and finish time; once its cancel function has returned it is told of nothing that begins later, and registering or cancelling one observer never loses, duplicates or misdirects notifications of another. Observers are notified most recently registered first. The context an observer's start returns is what the next observer, the monitored code and the finish notifications receive.",
  ["schedules", "histories"], "all interleavings of span starts/finishes with registration and cancellation of any number of observers",
  "TestLateObserver counts notifications of a single observer on one goroutine and never cancels.",
  ["trace.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"],
  [("lock-free observer list: CAS push at head", "trace.go ObserveSpansCtx"), ("removal under mutex with CAS retry", "trace.go removeObserverFrom"), ("observer re-fetched at finish", "ctx.go newSpan exit closure")],
  ["SpanObserver/SpanCtxObserver Start and Finish callbacks"],
  [("spanObservers", "linked list of observers", "trace.go")])

p("C06", "Trace watchers see every new trace",
  "Every trace that begins in a registry (implicitly, by reset, or from a remote caller) while a trace watcher is registered is reported to that watcher exactly once, early enough that a span observer it installs sees the trace's first span start; no trace begun after a watcher's cancel returned is reported to it, and cancelling one watcher (even twice) does not affect others. Observing all traces of a registry delivers to the observer, exactly once each, the starts and finishes of spans of traces already live at registration and of all traces begun later, and nothing for work begun after its cancel returned.",
  ["schedules", "histories"], "all interleavings of trace starts with registration and cancellation of watchers, including traces beginning during registration",
  "TestLateObserver registers one watcher on one goroutine; collect has no tests.",
  ["registry.go", "collect/trace.go", "ctx.go"],
  [("watcher set rebuilt under mutex, read through one atomic pointer", "registry.go updateWatcher/observeTrace"), ("watch first, then pick up live roots, deduplicated", "collect/trace.go ObserveAllTraces")],
  ["Registry.ObserveTraces callback", "collect.ObserveAllTraces observer callbacks"],
  [("traceWatchers, traceWatcher", "registered watchers and their published form", "registry.go")])

p("C07", "Span collection returns exactly the matched span's subtree",
  "Watching for spans returns, when the first matching span finishes, that span first and then exactly those of its descendants that finished before it through a chain of finished ancestors, each once and after its parent, with their actual error, panic flag and finish time, and never a span of another subtree or trace; collecting around a piece of work does the same for the span it wraps around the work, and runs the work exactly once. The done signal fires exactly once, stopping is idempotent, and cancelling the context ends a watch or a find with the context's error or plain return.",
  ["schedules", "histories"], "all span trees, finish orders, concurrent matching spans and traces, and stop/cancel times",
  "The collect package has no tests.",
  ["collect/collect.go", "collect/ctx.go", "collect/trace.go"],
  [("CAS of the span under collection", "collect/collect.go Start/ForceStart"), ("root latched under mutex, later finishes ignored", "collect/collect.go Finish"), ("tree rebuilt by parent id", "collect/collect.go Spans")],
  ["collect.WatchForSpans, CollectSpans, FindSpan, SpanCollector results"],
  [("check, root, spansByParent", "collection state", "collect/collect.go")])

p("C08", "Counters are atomic",
  "All operations on a counter (set, increment, decrement, reset, and reading current, high, low and the stats triple) behave, under any concurrency, as if executed one at a time in an order consistent with real time, on a value whose high and low marks are the extremes taken since construction or the last reset. In the stats a counter that was never changed since then reports no high or low (NaN), and otherwise low <= value <= high.",
  ["schedules", "histories", "inputs"], "all concurrent histories of counter operations with any int64 arguments",
  "No test touches Counter.",
  ["counter.go"],
  [("one mutex around value, low, high, nonempty", "counter.go")],
  ["Counter.Set/Inc/Dec/Reset/High/Low/Current/Stats"],
  [("val, low, high, nonempty", "counter state", "counter.go")])

p("C09", "Value statistics are exact totals of what was observed",
  "For integer, float and duration values, timers and distributions, the reported count, sum, min, max and most recent value are exactly those of the values observed since construction or reset, none lost or counted twice under concurrent observation, and every stats readout is one consistent snapshot. Boolean values report the exact numbers of trues and falses, their difference, and the latest value. A running timer contributes exactly one sample however often or concurrently it is stopped.",
  ["schedules", "inputs", "histories"], "all sequences and concurrent interleavings of observations, readouts, copies and resets over the value range",
  "No test touches the value types, timers or distributions.",
  ["val.go", "timer.go", "durdist.go", "intdist.go", "floatdist.go", "dist.go"],
  [("mutex around Insert and Copy", "val.go, timer.go"), ("running fields updated on Insert", "*dist.go Insert"), ("atomics", "val.go BoolVal")],
  ["Stats() of IntVal/FloatVal/DurationVal/BoolVal/Timer", "exported fields of the Dist types"])

p("C10", "Quantiles come from a fair recent sample of real observations",
  "While no more than 64 values have been observed since construction or reset, quantiles are the exact linear-interpolation quantiles of the observed values (to float32 precision); beyond that they are computed from 64 retained observations. For finite values, even those too large for a float32, quantiles and the sample's average are always within the observed minimum and maximum and quantiles never decrease as the requested quantile grows; within the float32 range, quantiles 0 and 1 (and whatever is requested beyond them) are the retained extremes and the sample's average is that of the retained values; an empty distribution reports 0, and reading, copying or resetting never disturbs another copy or later sampling. Retention is a random sample in which recent values keep being admitted at a rate of at least 64 per sampling window, independent of their magnitude and of how often quantiles are read.",
  ["inputs", "histories"], "all sequences of observations, queries, copies and resets, all quantile arguments and all sampling-window settings",
  "No test touches the distributions.",
  ["durdist.go", "intdist.go", "floatdist.go", "distgen.go.m4", "dist.go", "rng.go"],
  [("reservoir with sorted flag", "*dist.go Insert/Query"), ("window-capped replacement probability", "*dist.go Insert"), ("copy re-seeds its generator", "*dist.go Copy")],
  ["Dist.Query, ReservoirAverage, FullAverage, Copy, Reset", "IntVal/FloatVal/DurationVal.Quantile", "stats r* fields"],
  [("reservoir, sorted, Count", "retained sample", "*dist.go")])

p("C11", "Meters lose no events and report windowed rates",
  "A meter's total always equals the initial or reset total plus every amount marked since then, regardless of concurrency and of how much time passes. Its rate is the sum marked in the retained window (24 intervals of 10 minutes) divided by that window's length, where the window advances only in intervals in which something was marked and old intervals leave the rate, but not the total, when the window is full. A difference meter reports the differences of both meters' rates, both taken at the same instant, and totals.",
  ["schedules", "histories", "inputs"], "all sequences of marks, resets and readouts over any passage of time, any number of meters",
  "TestCallers reads one event total; no test lets the window advance (it moves every 10 minutes).",
  ["meter.go"],
  [("bucket ring shifted under mutex", "meter.go tick"), ("single ticker over all registered meters", "meter.go ticker")],
  ["Meter.Rate/Total/Stats", "DiffMeter.Stats"],
  [("slices, total", "window buckets and expired total", "meter.go")])

p("C12", "A name and tags always denote one and the same source",
  "Asking a scope for a source (function, meter, value, timer, counter and so on) with the same kind, name and tags always returns the same object, also when many goroutines ask for the first time at once, and asking with a different name or different tags, whatever characters they contain, returns a different object; the same holds for scopes by name in a registry and its transformed copies. Asking for a name already taken by another kind panics and leaves the scope fully usable. Re-registering a gauge replaces it.",
  ["schedules", "inputs", "histories"], "all names, tag lists, kinds and concurrent first uses",
  "Tests use a handful of fixed names once each, on one goroutine.",
  ["scope.go", "registry.go", "func.go"],
  [("double-checked lookup under RWMutex", "scope.go newSource"), ("source key built from name and tags", "scope.go sourceName"), ("scope map under mutex", "registry.go ScopeNamed")],
  ["identity of objects returned by Scope and Registry accessors"],
  [("sources", "name to source map", "scope.go"), ("scopes", "name to scope map", "registry.go")])

p("C13", "A stats readout is complete and without duplicates",
  "Reading a registry's or scope's stats reports every series of every source registered before the readout began (functions, values, meters, timers, counters, gauges, struct values, chained sources), each exactly once, with the source's own measurement, tags, fields and current values, and tagged with the scope it belongs to; scopes are visited in name order. This holds while other goroutines register and update sources. Collecting into a map yields the same data, and enumerating scopes and functions lists each exactly once.",
  ["schedules", "histories"], "all registries and all concurrent registrations and updates",
  "TestCallers looks at four map entries.",
  ["scope.go", "registry.go", "stats.go", "funcstats.go", "val.go"],
  [("snapshot of sources then callbacks outside the lock", "scope.go Stats"), ("scope tag added by callback wrapper", "scope.go Stats"), ("sorted scope snapshot", "registry.go Scopes")],
  ["Registry.Stats/Scope.Stats/Collect/Scopes/Funcs callbacks"])

p("C14", "Stat transformers compose and deltas add up",
  "A registry with transformers, or a transformed source, passes every stat through every transformer exactly once, the last added first, and leaves the original registry and earlier copies untouched while sharing all their data. The delta transformer passes all stats through unchanged and, for each series' total field from its second appearance on, additionally reports the difference from that series' previous total right after it, so that deltas of a series always add up to its change, independently per series and per transformer.",
  ["histories", "inputs", "schedules"], "all transformer lists, sequences of readouts, series keys and total values, including concurrent readouts",
  "No test uses transformers.",
  ["transform.go", "registry.go"],
  [("callback wrapping in list order", "registry.go Stats, transform.go TransformStatSource"), ("last total per series key under mutex", "transform.go DeltaTransformer"), ("copied transformer slice", "registry.go WithTransformers")],
  ["callback sequence given to Stats"],
  [("lastTotals", "previous totals by series", "transform.go")])

p("C15", "Series keys and tag sets are immutable values with faithful text",
  "Deriving a series key or tag set never changes the one it was derived from, later settings of a tag win over earlier ones, and tag sets can be shared and rendered by any number of goroutines at once. The text of a key is the measurement followed by the tags sorted by tag name, with commas, spaces and (in tags and fields) equals signs escaped by a backslash, so that for components that do not contain a backslash the text of distinct keys differs and parses back to exactly the components; equal keys give equal text.",
  ["inputs", "histories", "schedules"], "all measurement, tag and field strings, all derivation trees, concurrent rendering",
  "TestTagSet and TestTagSetFuzz check the internal map for single-digit tags on one goroutine; text output, escaping and concurrent use are untested.",
  ["stats.go", "tags.go"],
  [("copy-on-set maps", "tags.go SetAll/SetTags"), ("escaping writers", "tags.go writeTag/writeMeasurement"), ("cached string form", "tags.go String")],
  ["SeriesKey.String/WithField/WithTag(s)", "TagSet.Get/All/Len/String/Set/SetTags/SetAll"])

p("C16", "Struct stats report exactly the numeric fields",
  "For any struct value or pointer chain to one (cyclic structures excepted), the reported stats are exactly its fields convertible to a float (by value) and to a bool (as 0 or 1), recursively through nested exported structs with dotted names, in declaration order, skipping fields tagged to be ignored, nil pointers and everything else; values that are not structs (nil included) report nothing. It never panics. A struct value reports the most recently observed struct, read at readout time.",
  ["inputs", "programs"], "all acyclic Go struct types and values",
  "TestStatSourceFromStruct samples one flat struct with one nested struct and no pointers.",
  ["struct.go", "val.go"],
  [("reflection walk with deref and convertibility tests", "struct.go StatSourceFromStruct"), ("latest reference under mutex", "val.go StructVal")],
  ["callbacks of StatSourceFromStruct(...).Stats and StructVal.Stats"])

p("C17", "Trace values and annotations are neither lost nor torn",
  "Setting a value on a trace makes every later read of that key, and of all values, return it until it is set again, with concurrent sets and gets behaving atomically per key; the map of all values is a private copy. Annotations on a span are never lost, duplicated, altered or reordered relative to one goroutine's order, and every read is a private copy of a prefix of the final list.",
  ["schedules", "histories"], "all concurrent histories of set/get/get-all on traces and annotate/read on spans",
  "The http tests set one key and annotate sequentially.",
  ["trace.go", "span.go", "spinlock.go"],
  [("mutex around the value map", "trace.go"), ("append under spinlock, copy on read", "span.go Annotate/Annotations")],
  ["Trace.Set/Get/GetAll", "Span.Annotate/Annotations"],
  [("vals", "trace values", "trace.go"), ("annotations", "span annotations", "ctx.go Span")])

p("C18", "JSON outputs are valid and complete",
  "The JSON renderings of stats, functions, live spans and finished traces are always syntactically valid JSON arrays with one element per stat, function or span, whatever names, arguments, annotations, errors and values (including NaN and infinities) occur, and each element carries the item's actual ids, parent ids, names, outcome counts, timing statistics, error, flags, arguments and annotations. If the writer fails, the rendering returns that writer's error.",
  ["inputs", "histories", "fault_sequences"], "all registries, spans, strings and numeric values, and writer failures at any byte",
  "The present package has no tests.",
  ["present/json.go", "present/stats.go", "present/funcs.go", "present/spans.go", "present/trace.go"],
  [("streaming list writer with sticky error", "present/json.go listWriter"), ("formatters", "present/json.go formatSpan/formatFinishedSpan/formatFunc")],
  ["bytes written by StatsJSON, FuncsJSON, SpansJSON, SpansToJSON"])

p("C19", "Text, DOT and SVG outputs are well-formed and complete",
  "The DOT renderings of functions and live spans always parse as DOT, with exactly one node per function or span and exactly the caller and parent edges that exist (plus entry edges for functions called without a parent), and no name, argument, annotation or error text can break out of its label. The SVG of any list of finished spans is well-formed XML with one group per span carrying its name, a tooltip (whatever the arguments contain), colour by outcome and position by start and duration, with no two bars in one row overlapping in time; it never fails for empty or zero-length lists. The text renderings list every stat, function and live span with its actual numbers, and any writer error is returned.",
  ["inputs", "histories", "fault_sequences"], "all registries, span trees, strings and writer failures",
  "The present package has no tests.",
  ["present/dot.go", "present/funcs.go", "present/spans.go", "present/trace.go", "present/stats.go"],
  [("label escaping", "present/dot.go escapeDotLabel"), ("row layout", "present/trace.go computeLayoutInformation"), ("XML escaping", "present/trace.go SpansToSVG")],
  ["bytes written by FuncsDot, SpansDot, FuncsText, SpansText, StatsText, SpansToSVG"])

p("C20", "The debug endpoint answers every request correctly",
  "For every path and query the debug HTTP handler either answers with the documented rendering and its content type or with a plain error: not found for unknown paths, bad request for trace queries that lack both parameters or have an invalid regex, trace id or preselect value, or preselect no function; it never panics. Whatever its index page links to exists. Path handling ignores surplus slashes and trailing elements. Rendering never modifies the statistics it shows.",
  ["inputs", "histories"], "all URL paths, query strings and registry states",
  "The present package has no tests.",
  ["present/path.go", "present/http.go", "present/errs.go"],
  [("path router", "present/path.go FromRequest/shift"), ("error kinds mapped to status codes", "present/errs.go, present/http.go")],
  ["status, content type and body of HTTP responses", "FromRequest results"])

p("C21", "Trace queries return the next matching trace and stay alive",
  "A trace query answers with the spans (or, for remote queries, the trace id, after marking exactly that trace as sampled and calling its sampling callback once) of the first span that starts after the query began and satisfies both the function-name regex and the hexadecimal trace id where given; by default only functions known when the query is made can match, with preselect=false also later ones. While it waits it writes a keep-alive newline every 30 seconds that reaches the client, stops as soon as such a write fails and returns that error, and never writes a keep-alive after or inside the result, which remains a valid document.",
  ["histories", "schedules", "fault_sequences", "inputs"], "all regexes, trace ids, span histories before and after the query, waiting times and writer failures",
  "No test issues a trace query.",
  ["present/path.go", "present/trace.go", "present/utils.go", "collect/ctx.go"],
  [("span matcher composition", "present/path.go FromRequest"), ("keepAlive goroutine with mutex-protected stop", "present/utils.go"), ("WatchForSpans/FindSpan", "collect/ctx.go")],
  ["bytes and timing of writes to the result writer", "trace values after a remote query"])

p("C22", "Trace context survives HTTP hops",
  "Writing any trace id, parent id and sampled flag to HTTP headers and reading them back gives the same values for all 64-bit ids, and any malformed or unsupported trace header is ignored entirely rather than partly used. A sampled client request carries its trace to the server, whose handler span joins that trace with the span whose context the request was made from (the request's own span if there was none) as remote parent and is itself sampled; an unsampled one carries nothing; sampling can be forced without a parent through the trace-state header, in which case the response names the new trace and span. Only allow-listed baggage keys become annotations.",
  ["inputs", "histories", "programs"], "all ids, flags, header strings, baggage maps, allow-lists and multi-hop call chains",
  "http tests use ids 1 and 16, one hop, and one baggage key.",
  ["http/info.go", "http/client.go", "http/server.go"],
  [("traceparent format and parse", "http/info.go"), ("RemoteTrace in middleware", "http/server.go"), ("header injection", "http/client.go TraceRequest")],
  ["request/response headers", "TraceInfo values", "spans seen by handlers and observers"])

p("C23", "HTTP middleware is transparent and records the real status",
  "A handler wrapped by the tracing middleware sees the same request (with a context derived from the original and from what span observers returned) and produces the same status, headers, body bytes, flushes and panics for the client as unwrapped, apart from the documented trace headers. The wrapped writer supports flushing exactly if the original does, and the recorded status is the one sent, 200 when none was set explicitly. A traced client request returns the client's response or error unchanged and records the URI and response code.",
  ["inputs", "histories"], "all handler behaviours (order and number of writes, headers, flushes, panics) and client outcomes",
  "TestWrapping and TestWrappingFlusher check one write and one status each.",
  ["http/http.go", "http/server.go", "http/client.go"],
  [("response writer observer", "http/http.go Wrap"), ("ServeHTTP", "http/server.go"), ("TraceRequest", "http/client.go")],
  ["responses received by HTTP clients", "span annotations http.uri and http.responsecode"])

p("C24", "Everything safe for concurrent use is free of races and deadlocks",
  "Any mix of concurrent calls to the thread-safe API (tasks, observers, watchers, collectors, all value types, scopes, stats readouts, presenters, HTTP endpoints, environment sources) executes without data races, crashes, corruption or deadlock, and every call completes once the user code it runs has completed. This holds in all supported builds, including the App Engine variant and 32-bit platforms.",
  ["schedules", "configurations"], "all interleavings of API calls from any number of goroutines; build tags default and appengine; 64- and 32-bit",
  "All tests are essentially single-goroutine and run only the default 64-bit build without the race detector.",
  ["ctx.go", "span.go", "registry.go", "scope.go", "trace.go", "funcset.go", "cas_safe.go", "cas_unsafe.go", "val.go", "meter.go", "tags.go", "environment/runtime.go", "collect/collect.go", "present/utils.go"],
  [("mutexes, spinlocks and atomics throughout", "whole library"), ("64-bit atomics first in their structs", "funcstats.go, trace.go, val.go")],
  ["race detector reports", "process crashes", "operations that never return"])

p("C25", "Callbacks may call back into the library",
  "Code that the library calls (stat callbacks, gauge functions, chained sources, transformers, span observers, trace watchers, span matchers, error name handlers, self-naming errors, enumeration callbacks and argument formatting) may itself call any part of the library, including on the same function, span, trace, scope or registry, cancel its own registration, or panic, without deadlock and without leaving the library unusable.",
  ["histories", "programs"], "all nestings of library calls inside library callbacks, including panicking callbacks",
  "No test calls the library from a callback, except registering an observer in a trace watcher.",
  ["funcstats.go", "registry.go", "scope.go", "trace.go", "collect/collect.go", "collect/trace.go", "span.go", "error_names.go"],
  [("snapshots taken under locks, callbacks run outside them", "scope.go, registry.go, span.go, funcset.go"), ("deferred unlocks around user code", "scope.go Gauge")],
  ["completion of nested calls", "library behaviour after a callback panicked"])

p("C26", "Errors are counted under the right name",
  "A failed call's error is counted under the name given by the most recently added handler that claims it, else by the error's own naming method if that claims it, else by the fixed name for known standard-library errors, else as a system error; handlers are consulted for every error in every function once added, most recent first and none after one claims it, also while handlers are added concurrently. Calls that succeed or panic consult no handler.",
  ["inputs", "histories", "schedules"], "all error values and all handler registration histories",
  "No test uses error names beyond one count.",
  ["error_names.go", "error_names_net.go", "error_names_syscall.go", "funcstats.go"],
  [("copy-on-write handler list scanned backwards", "error_names.go"), ("type switches", "error_names_net.go, error_names_syscall.go")],
  ["Func.Errors()", "stats tagged error_name"])

p("C27", "Environment statistics are true",
  "The environment sources, once registered, report the process's actual state at readout: open file descriptors, the fields of the kernel's process status and memory files whatever the executable's name, resource usage, goroutine and memory figures, uptime, the checksum of the running executable, and one further garbage-collection pause sample for each readout that finds a new collection. They do so on every readout, also from many goroutines at once.",
  ["histories", "schedules", "configurations"], "all process states, executable names, readout times and concurrent readouts (Linux)",
  "Tests check that the descriptor count and the executable are non-empty.",
  ["environment/os.go", "environment/os_unix.go", "environment/proc_linux.go", "environment/process.go", "environment/runtime.go", "environment/rusage.go", "environment/env.go"],
  [("procfs readers", "environment/proc_linux.go, os_unix.go"), ("cached crc", "environment/process.go"), ("GC pause distribution", "environment/runtime.go")],
  ["stats emitted by environment.Register'ed scope"])

p("C28", "The call graph records exactly who called whom",
  "A function's recorded parents are exactly the set of functions whose span was the parent of one of its calls, plus the entry marker if it was ever called without a parent; each is listed once, none is lost under concurrent first calls, and none is ever invented.",
  ["schedules", "histories"], "all call histories and interleavings of first calls from different parents",
  "No test reads Parents.",
  ["funcset.go", "funcstats.go", "func.go", "cas_unsafe.go"],
  [("CAS-published first element, map for the rest", "funcset.go Add/Iterate"), ("nil placeholder for entry", "funcset.go nilFunc")],
  ["Func.Parents", "edges in FuncsDot/FuncsJSON"],
  [("first, rest", "set of parents", "funcset.go")])

p("C29", "Recorded times are the real elapsed times",
  "The duration recorded for a monitored call, observed function or stopped timer is exactly the monotonic time between its start and its end, excluding anything before or after; a span's start, finish and running duration agree with it, and monotonic time never goes backwards. Success and failure times are kept apart, with errors and panics both in the failure times.",
  ["histories", "inputs"], "all sequences of calls and waits, measured on a virtual clock, and concurrent clock reads",
  "TestMonotime checks one 1-second sleep to within 25%.",
  ["monotime/monotime.go", "monotime/monotime_fallback.go", "monotime/monotime_windows.go", "ctx.go", "timer.go", "funcstats.go", "span.go"],
  [("monotonic clock based Now", "monotime"), ("finish taken before bookkeeping", "ctx.go exit closure"), ("elapsed on Stop", "timer.go")],
  ["SuccessTimes/FailureTimes", "Timer.Values", "Span.Start/Duration, Finish notification time"])

p("C30", "Finished work is not retained",
  "Once a span and the spans started under it have finished, and any collection, watch or query involving it has ended, the library keeps no reference to it, to its arguments or to its trace, even while its parent, its trace and the registry live on; likewise cancelled watchers, observers and collectors are released. The number of spans, orphans and goroutines the library holds does not grow with the number of finished calls.",
  ["histories", "schedules"], "all histories of starts, finishes, orphanings, collections and cancellations",
  "No test looks at what stays reachable.",
  ["ctx.go", "span.go", "spanbag.go", "registry.go", "trace.go", "collect/ctx.go", "collect/trace.go", "present/utils.go"],
  [("removal from parent and registry on exit", "ctx.go exit closure"), ("observer removal", "trace.go removeObserver")],
  ["garbage-collector reachability of spans, arguments, traces, observers", "goroutine counts"])

p("C31", "Functions and scopes are named after the code that uses them",
  "A task or function obtained without a name is named after the function that uses it, for every form of code: plain functions, methods on value, pointer and generic receivers, generic functions, closures, deferred and goroutine functions, whether or not the compiler inlines them; a package scope is named after the package that asks for it in the same way. A task keeps the name of its first use, and full names are the scope name and the short name joined by a dot.",
  ["programs", "configurations"], "all call-site shapes and compiler inlining decisions",
  "TestFuncName, TestCallers and TestExtractFuncName cover plain top-level functions and strings.",
  ["callers.go", "ctx.go", "scope.go", "registry.go", "func.go", "task.go"],
  [("runtime.Callers depth counting", "callers.go"), ("once-only name resolution", "ctx.go Scope.Task")],
  ["Func.ShortName/FullName", "Scope.Name", "Task.Func"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
