"""Generates packages full of functions of all shapes that use unnamed tasks,
functions and package scopes, for the check of C31."""
import random

PKGS = ["plain", "x.y/two", "dash-ed", "UPPER", "v2", "four.five", "a/b/c/d", "under_score", "odd_test", "a_test/b", "main"]


class Gen:
    def __init__(self, rnd, name):
        self.r, self.name = rnd, name
        self.top, self.entries, self.n = [], [], 0
        self.callable = []  # expressions taking e

    def uses(self, lit):
        """Statements that use something unnamed; lit is the function's name."""
        r, out = self.r, []
        q = '"%s"' % lit
        for _ in range(r.randint(1, 3)):
            k = r.randint(0, 8)
            if k == 0:
                out.append('{ ctx := context.Background(); t := e.S.Task(); x := t(&ctx); e.Func("Task", t.Func(), env.Here(), %s); x(nil) }' % q)
            elif k == 1:
                out.append('{ ctx := context.Background(); x := e.S.Task()(&ctx, 1, "a"); e.Span("Task used at once", ctx, env.Here(), %s); x(nil) }' % q)
            elif k == 2:
                out.append('{ ctx := context.Background(); var err error; defer e.S.Task()(&ctx)(&err); e.Span("deferred Task", ctx, env.Here(), %s) }' % q)
            elif k == 3:
                out.append('e.Func("Func", e.S.Func(), env.Here(), %s)' % q)
            elif k == 4:
                out.append('e.Package("Package", monkit.Package(), env.Here())')
            elif k == 5:
                out.append('e.Package("Registry.Package", e.Reg.Package(), env.Here())')
            elif k == 6:
                out.append('{ ctx := context.Background(); s := e.Shared(%d); x := s.Task(&ctx); e.Use("shared Task", s, ctx, env.Here(), %s); x(nil) }'
                           % (r.randint(0, 5), q))
            elif k == 7:
                out.append('{ t := e.S.Task(monkit.NewSeriesTag("k", "%d")); t(nil)(nil); e.Func("tagged Task without context", t.Func(), env.Here(), %s) }'
                           % (r.randint(0, 2), q))
            else:
                out.append('{ ctx := context.Background(); f := e.S.Func(); x := f.Task(&ctx); e.Span("Func.Task", ctx, env.Here(), %s); x(nil) }' % q)
        return out

    def body(self, lit, depth):
        """A function body: uses, closures and calls of earlier functions."""
        r = self.r
        out = self.uses(lit) if r.random() < .8 else []
        if depth > 0:
            for _ in range(r.randint(0, 2)):
                inner = self.body("", depth - 1)
                k = r.randint(0, 7)
                if k == 0:
                    out += ["func() {"] + inner + ["}()"]
                elif k == 1:
                    out += ["{ h := func() {"] + inner + ["}; h() }"]
                elif k == 2:
                    out += ["defer func() {"] + inner + ["}()"]
                elif k == 3:
                    out += ["{ done := make(chan struct{}); go func() { defer close(done)"] + inner + ["}(); <-done }"]
                elif k == 4:
                    out += ["{ var o sync.Once; o.Do(func() {"] + inner + ["}) }"]
                elif k == 5:
                    out += ["call(func() {"] + inner + ["})"]
                elif k == 6:
                    out += ["for range seq {"] + inner + ["}"]
                else:
                    out += ["for i := 0; i < 2; i++ { func(n int) { _ = n"] + inner + ["}(i) }"]
        if self.callable and r.random() < .5:
            out.append("if e.Depth < 6 { e.Depth++; %s; e.Depth-- }" % r.choice(self.callable))
        r.shuffle(out) if depth == 0 else None
        return out or ["_ = e"]

    def emit(self, head, lit, depth):
        pre = self.r.choice(["", "", "//go:noinline\n"])
        self.top.append(pre + head + " {\n" + "\n".join(self.body(lit, depth)) + "\n}\n")

    def function(self):
        r = self.r
        self.n += 1
        n = self.n
        depth = r.randint(0, 2)
        k = r.randint(0, 9)
        if k <= 2:
            name = r.choice(["f%d", "Fn%d", "fn_%d", "ƒ%d"]) % n
            self.emit("func %s(e *env.Env)" % name, name, depth)
            calls = ["%s(e)" % name, "{ g := %s; g(e) }" % name]
        elif k == 3:
            self.top.append("type t%d struct{ x int }\n" % n)
            self.emit("func (t *t%d) m(e *env.Env)" % n, "(*t%d).m" % n, depth)
            calls = ["(&t%d{}).m(e)" % n, "(*t%d).m(&t%d{}, e)" % (n, n), "{ g := (&t%d{}).m; g(e) }" % n,
                     "{ var i iface = &t%d{}; i.m(e) }" % n, "{ var y struct{ t%d }; y.m(e) }" % n,
                     "{ var i iface = &struct{ *t%d }{&t%d{}}; i.m(e) }" % (n, n)]
        elif k == 4:
            self.top.append("type t%d struct{ x, y int }\n" % n)
            self.emit("func (t t%d) m(e *env.Env)" % n, "t%d.m" % n, depth)
            calls = ["t%d{}.m(e)" % n, "t%d.m(t%d{}, e)" % (n, n), "{ g := t%d{}.m; g(e) }" % n,
                     "{ var i iface = t%d{}; i.m(e) }" % n, "{ var i iface = &t%d{}; i.m(e) }" % n]
        elif k == 5:
            self.emit("func g%d[A any](e *env.Env, a A)" % n, "g%d[...]" % n, depth)
            calls = ["g%d(e, 3)" % n, 'g%d(e, "x")' % n, "g%d[struct{ A, B int }](e, struct{ A, B int }{})" % n,
                     "g%d(e, e)" % n, "g%d(e, monkit.NewTagSet)" % n if False else "g%d(e, []*env.Env{})" % n]
        elif k == 6:
            self.top.append("type G%d[A any] struct{ a A }\n" % n)
            self.emit("func (g *G%d[A]) m(e *env.Env)" % n, "(*G%d[...]).m" % n, depth)
            calls = ["(&G%d[int]{}).m(e)" % n, "(&G%d[env.Env]{}).m(e)" % n, "{ var i iface = &G%d[*env.Env]{}; i.m(e) }" % n,
                     "{ h := (&G%d[string]{}).m; h(e) }" % n]
        elif k == 7:
            self.top.append("type H%d[A, B any] struct{ a A; b B }\n" % n)
            self.emit("func (g H%d[A, B]) m(e *env.Env)" % n, "H%d[...].m" % n, depth)
            calls = ["H%d[int, string]{}.m(e)" % n, "{ var i iface = H%d[error, *env.Env]{}; i.m(e) }" % n]
        elif k == 8:
            self.top.append("var v%d = func(e *env.Env) {\n%s\n}\n" % (n, "\n".join(self.body("", depth))))
            calls = ["v%d(e)" % n]
            # no calls of it from other functions: initialisation cycles
            self.entries += calls
            return
        else:
            name = "rec%d" % n
            body = self.body(name, depth)
            self.top.append("func %s(e *env.Env, n int) {\nif n > 0 { %s(e, n-1); return }\n%s\n}\n" % (name, name, "\n".join(body)))
            calls = ["%s(e, 2)" % name]
        self.entries += calls
        self.callable += calls[:2]

    def source(self, count):
        for _ in range(count):
            self.function()
        out = ["package %s" % self.name, "", "import (", '"context"', '"sync"', "",
               '"github.com/spacemonkeygo/monkit/v3"', '"verifh/c31/env"', ")", "",
               "var _ = context.Background", "var _ sync.Once", "var _ = monkit.NewId", "",
               "type iface interface{ m(e *env.Env) }", "",
               "func call(f func()) { f() }", "",
               "func seq(yield func() bool) { yield() }", ""]
        out += self.top
        out.append("// Entries runs every function in every way.")
        out.append("var Entries = []func(e *env.Env){")
        for c in self.entries:
            out.append("func(e *env.Env) { %s }," % c)
        out.append("}")
        return "\n".join(out) + "\n"


def generate(seed, tier):
    rnd = random.Random("C31 %s" % seed)
    files, imports, table = {}, [], []
    for i, path in enumerate(PKGS):
        g = Gen(rnd, "pkg%d" % i)
        files["c31/gen/%s/gen.go" % path] = g.source(40 if tier == "quick" else 120)
        imports.append('pkg%d "verifh/c31/gen/%s"' % (i, path))
        table.append('{"verifh/c31/gen/%s", pkg%d.Entries},' % (path, i))
    files["c31/table_gen_test.go"] = ("package c31\n\nimport (\n%s\n\"verifh/c31/env\"\n)\n\nfunc init() {\n"
                                      "generated = []pkg{\n%s\n}\n}\n\nvar _ env.Env\n" % ("\n".join(imports), "\n".join(table)))
    return files
