"""What each check runs. The key is the property; the harness package is its
lower-case id."""

DEFAULT_NOTE = ("Exploration by execution: the real code, built from the working tree with the race detector, "
                "is driven by seeded workloads in several scheduling modes (parallel, and with yields injected "
                "between statements) while the monitors named above watch. It holds on the executions produced; "
                "trusts the Go toolchain and race detector and the harness's reference models.")


def C(technique, rule, level="exploration", note=DEFAULT_NOTE, **kw):
    return dict(level=level, rule=rule, technique=technique, level_note=note, **kw)


# also in virtual time, where everything happens at the same instant
FROZEN = [("ry", "par"), ("ry", "y1"), ("ry", "y4"), ("ry", "par", "frozen")]
# with the App Engine build's atomics, under the race detector
AE = [("ae", "par"), ("ae", "y4")]
# with 32-bit ints
I386 = [("386", "par")]
YS = [("ry", "par"), ("ry", "y1"), ("ry", "y4")]

CHECKS = {
    "C01": C("runtime monitoring: sequential reference model of the counters compared after every step, and at "
             "quiescent points of concurrent stress under the race detector and yield injection",
             "distinct operation sequences (sequential scenarios) or distinct observed orders of starts and finishes (concurrent ones)",
             runs=FROZEN + I386, parallel_runs=4),
    "C02": C("runtime monitoring: identity of errors and panic values, context contents and control flow of monitored "
             "code compared with what the unmonitored code does, under random observers",
             "distinct combinations of call forms, error and panic kinds, context chains and recorded control-flow traces",
             runs=FROZEN, parallel_runs=4),
    "C03": C("runtime monitoring: every span's parent, trace, ids, arguments and its trace's span count compared with a "
             "reference model of the call tree, sequentially and at quiescent points of concurrent stress",
             "distinct operation sequences, argument lists or observed orders of starts and finishes",
             runs=FROZEN + I386, parallel_runs=4),
    "C04": C("runtime monitoring: root, child and full walks compared with a reference model of unfinished spans after every "
             "step and at quiescent points of concurrent stress; walks under load checked for spans that stay",
             "distinct operation sequences or observed orders of starts and finishes",
             runs=FROZEN, parallel_runs=4),
    "C28": C("runtime monitoring: recorded parents compared with the set of calls made, after every step, after racing "
             "first calls, and bounded from both sides while calls race",
             "distinct operation sequences, caller mixes or observed orders of starts and finishes",
             runs=FROZEN + AE, parallel_runs=4),
    "C05": C("runtime monitoring: notifications of every observer recorded with a logical clock and checked offline against "
             "registration, cancellation, start and finish intervals; sequential reference model for order and contexts",
             "distinct operation sequences, or distinct patterns of who was notified of what under racing registrations",
             runs=FROZEN + AE, parallel_runs=4),
    "C06": C("runtime monitoring: watcher and observer notifications recorded with a logical clock and checked offline against "
             "registration, cancellation and span intervals; sequential reference model; registration inside the start window",
             "distinct operation sequences, or distinct patterns of who was notified of what under racing registrations",
             runs=FROZEN + AE, parallel_runs=4),
    "C07": C("runtime monitoring: results of collections compared with a recorded history of the real span tree (exactly in "
             "sequential histories; between certain and possible membership by logical clock in concurrent ones)",
             "distinct operation sequences, or distinct sizes of trees and results under racing starts, finishes and stops",
             runs=FROZEN + AE, parallel_runs=4),
    "C08": C("runtime monitoring: recorded histories of concurrent operations checked offline for linearizability "
             "(porcupine), conservation over long runs, and a sequential reference model",
             "distinct operation sequences, or distinct observed orders of calls and returns",
             runs=YS + I386),
    "C09": C("runtime monitoring: sequential reference model of totals; recorded concurrent histories of observations and "
             "readouts checked offline for linearizability (porcupine) and against logical-clock bounds; timers stopped concurrently",
             "distinct observation sequences, or distinct observed orders of calls and returns",
             runs=FROZEN + I386, parallel_runs=4),
    "C10": C("runtime monitoring: quantiles of random contents compared with exact interpolation (up to 64 values), bounded, "
             "monotone and identified with real observations (beyond); retention monitored with statistical tests at 8 standard deviations",
             "distinct contents and operation sequences",
             runs=FROZEN + I386, parallel_runs=4),
    "C11": C("runtime monitoring under virtual time (testing/synctest): totals and rates compared with a reference model of the "
             "window through hours of marks, pauses and resets; conservation under marks racing with the window's advance",
             "distinct operation sequences with their times, or distinct amounts and interleavings",
             runs=[("ry", "par"), ("ry", "y1"), ("ry", "y4"), ("ry", "par", "real"), ("ry", "y4", "real"), ("386", "par")], parallel_runs=5, repeat_thorough=20),
    "C12": C("runtime monitoring: object identities compared with a reference map from scope, kind, name and tags, in random "
             "sequences with hostile names and for goroutines racing to ask first",
             "distinct sequences of requests, or distinct sets and orders of racing requests",
             runs=FROZEN, parallel_runs=4),
    "C13": C("runtime monitoring: every readout compared series by series with a reference model of all registered sources; "
             "readouts racing with registrations and updates checked offline by logical clock",
             "distinct sets of sources, or distinct observed mixes of registrations and readouts",
             runs=FROZEN, parallel_runs=4),
    "C14": C("runtime monitoring: transformed readouts compared stat by stat with a reference composition of the same transformers; "
             "deltas compared with a model per series, and conserved when one transformer serves concurrent readouts",
             "distinct compositions of transformers and series histories",
             runs=FROZEN, parallel_runs=4),
    "C15": C("runtime monitoring: tag sets and texts compared with a reference model and parsed back, with all ancestors checked "
             "again after every derivation; concurrent rendering under the race detector",
             "distinct derivation histories"),
    "C16": C("runtime monitoring: reported fields compared with those of randomly generated struct types and values, built together "
             "with their expected readout; struct values observed and read concurrently with a logical clock",
             "distinct struct types and values",
             runs=YS + I386),
    "C17": C("runtime monitoring: recorded histories of sets and gets checked offline for linearizability per key (porcupine); "
             "annotation readouts checked to be prefixes of the final list with a logical clock; sequential models with spoiled copies",
             "distinct operation sequences, or distinct observed orders of concurrent calls",
             runs=FROZEN, parallel_runs=4),
    "C18": C("runtime monitoring: renderings of random worlds with hostile texts parsed with an independent JSON parser and "
             "compared element by element with a reference model under virtual time; writer faults injected at every write; "
             "documents rendered during calls parsed",
             "distinct sequences of calls, outcomes and texts that were rendered",
             runs=YS + I386),
    "C19": C("runtime monitoring: renderings of random worlds with hostile texts parsed with a DOT parser, an XML parser and text "
             "consumers, and compared item by item with a reference model under virtual time (bars checked for position, colour and "
             "overlap); writer faults injected at every write; documents rendered during calls parsed",
             "distinct sequences of calls, outcomes and texts that were rendered",
             runs=YS + I386),
    "C20": C("runtime monitoring: answers to random and hostile paths and queries compared with a reference router and the direct "
             "renderings under virtual time, statistics compared before and after; the same over a real server",
             "distinct requests, by path and query",
             runs=[("ry", "par"), ("ry", "par", "real")], thorough_runs=[("ry", "par"), ("ry", "par", "real")], parallel_runs=2),
    "C21": C("runtime monitoring under virtual time (testing/synctest): bytes, times and flushes of pending queries compared with "
             "a reference model of what matches first; keep-alive faults injected; answers that coincide with keep-alives; racing "
             "matches checked by logical clock; through an HTTP server and client connected in memory",
             "distinct queries and timelines, or observed orders of racing matches"),
    "C22": C("runtime monitoring: headers of random and malformed trace information read back and compared with a reference parser; "
             "spans, annotations and response headers seen behind the real middleware and client compared with what was sent; "
             "concurrent requests through chains of real servers followed hop by hop",
             "distinct headers, requests and chains",
             runs=YS + I386),
    "C23": C("runtime monitoring: random handler scripts run with and without the middleware on call-recording writers and on real "
             "servers, and everything the writer, the client, the handler and span observers see compared; recorded status compared "
             "with the one that was sent; traced client requests compared with the client's own results",
             "distinct handler scripts and client outcomes"),
    "C24": C("sanitizers and runtime monitoring: the whole thread-safe API exercised by colliding goroutines (each operation with itself, "
             "few operations with each other, all together) under the race detector with injected yields, with crash and hang watchdogs and "
             "conservation checks at the end; also in the App Engine build under the race detector and in a 32-bit build",
             "distinct sets of colliding operations with sampled orders",
             runs=[("ry", "par"), ("ry", "y1"), ("ry", "y4"), ("ae", "par"), ("ae", "y4"), ("386", "par"), ("386", "y4")], parallel_runs=4),
    "C25": C("runtime monitoring: every place at which the library calls user code has that code do every operation of the API on the same "
             "objects (itself or in another goroutine), cancel its registration, or panic; watchdogs decide completion, and a battery of "
             "all operations, essential counts and full readouts decides that the library stayed usable",
             "distinct pairs of callback and what it did"),
    "C26": C("runtime monitoring: error values and handlers that record who was shown what; consultation order, stop at the first claim, "
             "and the counted and reported names compared with a reference model after every call; histories of handlers added "
             "while calls fail checked offline for one total order, real-time order and no lost handler; also in the App Engine and tinygo builds",
             "distinct histories of additions and failing calls; distinct patterns of what racing calls saw",
             runs=FROZEN + [("ae", "par"), ("ae", "y4"), ("tg", "par")]),
    "C27": C("runtime monitoring: every environment figure bracketed between two looks at the process's state by other means (own readers of "
             "the kernel's files, getrusage, runtime), in changing process states and in child processes under hostile executable names; "
             "fabricated kernel files with exact comparison of every field; counts of pause samples against collections in sequential and "
             "racing readouts; descriptor and goroutine leaks",
             "distinct process states, executable names and treatments, file contents, and numbers of racing readouts and collections",
             runs=[("ry", "par"), ("ry", "y1"), ("ry", "y4"), ("fk", "par", "fake"), ("386", "par")]),
    "C29": C("runtime monitoring on a virtual clock: recorded durations, starts, finishes, running durations and timers compared exactly with "
             "the clock over random timelines with slow observers, handlers and failures; on the real clock, bracketed between readings "
             "inside and outside of each call, also while the wall clock jumps (patched standard library); the clock of the Windows build over a fake performance counter; concurrent clock reads "
             "checked for going back",
             "distinct timelines, or observed times",
             runs=[("ry", "par"), ("ry", "y4"), ("ae", "par"), ("ry", "par", "real"), ("ry", "y4", "real"), ("ws", "par", "skew"), ("ws", "y4", "skew")] + [("wc", "par", "win" + f) for f in ("10m", "3m", "24m", "tsc")]),
    "C30": C("runtime monitoring: weak pointers to spans, arguments, traces, trace values, errors, observers, watchers, matchers, collectors, "
             "requests and results in random and racing histories; the garbage collector decides what the library still holds; live span "
             "lists, goroutine counts and heap object growth over bursts of every operation",
             "distinct histories of starts, finishes, subscriptions and episodes",
             runs=[("ry", "par"), ("ry", "y1"), ("ry", "y4"), ("ae", "par")]),
    "C31": C("runtime monitoring: names given to tasks, functions and scopes in generated code of all shapes (functions, methods, generics, closures, "
             "deferred, goroutines, nested and inlined at random) compared with the names that an independent stack walk in the same "
             "function gives, in builds with and without inlining; tasks first used by racing functions",
             "distinct pairs of form and function, users of shared tasks, and nasty names",
             runs=[("p", "par"), ("noinl", "par"), ("r", "par"), ("ry", "y4"), ("ae", "par")], generate="gen_c31"),
}

NOT_APPLICABLE = {}
