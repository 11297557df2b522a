#!/usr/bin/env python3
"""Makes and tries planted bugs in scratch copies of /repo.

  seed.py make SPEC.py       SPEC calls seed(id, prop, edits, needs, breaks, demo)
  seed.py try ID... [--check [PROP]] [--seed N]   apply, build, tests, demo and optionally the check
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of its own against the tree in the current
# directory (through an overlay: nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zzdemo/demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$tmp/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go test -vet=off %s -overlay "$tmp/o.json" -c -o "$tmp/demo.test" ./zzdemo || exit 2
cd "$tmp" && ./demo.test -test.timeout 240s -test.count 1
'''

PKGS = {p.rsplit("/", 1)[-1]: p for p in """context sync sync/atomic testing time io bytes strings strconv fmt errors math sort os runtime
 runtime/debug net net/http net/http/httptest net/url regexp encoding/json encoding/xml testing/synctest reflect
 bufio path/filepath os/exec unicode/utf8 math/rand""".split()}
M = "github.com/spacemonkeygo/monkit/v3"
PKGS.update(monkit=M, collect=M + "/collect", present=M + "/present", environment=M + "/environment", monotime=M + "/monotime")
PKGS["mhttp"] = M + "/http"

def source(body):
    """Adds package clause and imports to the text of a demo."""
    import re
    used = sorted({w for w in re.findall(r"\b(\w+)\.", body) if w in PKGS}, key=lambda w: PKGS[w])
    return "package zzdemo\n\nimport (\n" + "".join(
        "\t%s\"%s\"\n" % ("mhttp " if w == "mhttp" else "", PKGS[w]) for w in used) + ")\n" + body

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout

def copy():
    d = tempfile.mkdtemp(prefix="seed")
    sh("git clone -q /repo %s/repo" % d, "/")
    return d, d + "/repo"

GOENV = dict(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")

def seed(id, prop, edits, needs, breaks, demo, flags=""):
    d, r = copy()
    try:
        for f, old, new in edits:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                print(id, "EDIT does not apply once:", f, s.count(old)); return
            open(r + "/" + f, "w").write(s.replace(old, new))
        sh("gofmt -l .", r)
        rc, diff = sh("git diff", r)
        o = os.path.join(SEEDED, id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo_test.go", "w").write(source(demo))
        open(o + "/demo.sh", "w").write(DEMO % flags)
        os.chmod(o + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)
    print(id, *trial(id))

def trial(id, check=False, prop=None, seedn="1"):
    o = os.path.join(SEEDED, id)
    d, r = copy()
    res = []
    try:
        demo = d + "/demo"
        shutil.copytree(o, demo)
        rc, out = sh(["bash", demo + "/demo.sh"], r)
        res.append("demo-clean=%d" % rc)
        if rc != 0: res.append(out[-1500:])
        rc, out = sh(["git", "apply", o + "/patch.diff"], r)
        if rc != 0: return res + ["DOES NOT APPLY " + out]
        rc, out = sh("go build ./... && go test -vet=off -count=1 ./...", r, env=GOENV)
        res.append("build+tests=%d" % rc)
        if rc != 0: res.append(out[-1500:])
        rc, out = sh(["bash", demo + "/demo.sh"], r)
        res.append("demo-bug=%d" % rc)
        if rc == 0: res.append("DEMO DOES NOT FAIL")
        elif os.environ.get("SHOW"): res.append(out[-800:])
        if check:
            p = prop or json.load(open(o + "/meta.json"))["property"]
            rc, out = sh([sys.executable, VERIF + "/runcheck.py", p], VERIF,
                env=dict(VERIF_SCRATCH_REPO=r, VERIF_SCRATCH_EVIDENCE=d, VERIF_SEED=seedn, VERIF_TIER="quick"))
            res.append("check %s=%d %s" % (p, rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s " % p in out else "MISSED"))
            if rc != 1: res.append(out[-600:])
            elif os.environ.get("SHOW"): res.append(out[-1500:])
    finally:
        shutil.rmtree(d)
    return res

if __name__ == "__main__":
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            exec(open(f).read(), dict(seed=seed))
    else:
        a = sys.argv[2:]; check = "--check" in a; prop = None; sn = "1"
        if "--seed" in a:
            i = a.index("--seed"); sn = a[i+1]; del a[i:i+2]
        ids = [x for x in a if x != "--check"]
        if check:
            i = a.index("--check"); ids = a[:i]; prop = a[i+1] if i + 1 < len(a) else None
        if ids == ["all"]: ids = sorted(os.listdir(SEEDED))
        for i in ids: print(i, *trial(i, check, prop, sn), flush=True)
