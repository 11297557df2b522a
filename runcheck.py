#!/usr/bin/env python3
"""Runs the check of one property against /repo's working tree.

    runcheck.py ID [--replay FILE]

Builds the check's binary from /repo's current files (with the race detector,
and with yields injected through an overlay), runs it in several modes, and
turns what its monitors recorded into a verdict and an evidence file.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
# Always /repo, except when trying the checks on scratch copies with planted bugs.
REPO = os.environ.get("VERIF_SCRATCH_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
MONKIT = "github.com/spacemonkeygo/monkit/v3"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402


def goenv(extra=None):
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
               GOWORK="off", GO111MODULE="on")
    env.pop("GODEBUG", None)
    env.update(extra or {})
    return env


class Err(Exception):
    pass


def sh(cmd, env=None, cwd=HARNESS, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


BUILDS = {
    # name: (race, overlay, tags, env)
    "ry": (True, True, "", {}),
    "r": (True, False, "", {}),
    "p": (False, False, "", {}),
    "py": (False, True, "", {}),
    "ae": (True, True, "appengine", {}),
    "aep": (False, True, "appengine", {}),
    # reads verifproc/stat and statm instead of the kernel's files
    "fk": (False, True, "", {}),
    # with a wall clock that the harness can make jump
    "ws": (False, True, "wallskew", {}),
    # with the clock of the Windows build over a fake performance counter
    "wc": (False, True, "winclock", {}),
    "tg": (False, True, "tinygo", {}),
    "386": (False, True, "", {"GOARCH": "386", "CGO_ENABLED": "0"}),
    "noinl": (False, False, "", {}),
}

MODES = {
    # name: GOMAXPROCS, yields per 1024 statements
    "par": (8, 0),
    "y1": (1, 120),
    "y2": (2, 60),
    "y4": (4, 200),
}


def make_overlay(tmp):
    ov = os.path.join(tmp, "overlay")
    os.mkdir(ov)
    rc, out = sh(["go", "build", "-o", os.path.join(tmp, "instr"), "./cmd/instr"])
    if rc != 0:
        raise Err("instr does not build:\n" + out)
    rc, out = sh([os.path.join(tmp, "instr"), REPO, ov, os.path.join(HARNESS, "yieldsrc", "yield.go.txt")])
    if rc != 0:
        raise Err("instr failed:\n" + out)
    return os.path.join(ov, "overlay.json")


def fake_overlay(tmp, overlay):
    """The overlay with the paths of the kernel's files replaced."""
    ov = json.load(open(overlay))
    out = os.path.join(tmp, "fake")
    os.mkdir(out)
    for path, repl in list(ov["Replace"].items()):
        text = open(repl).read()
        new = text.replace('"/proc/self/stat"', '"verifproc/stat"').replace('"/proc/self/statm"', '"verifproc/statm"')
        if new != text:
            f = os.path.join(out, os.path.basename(repl))
            open(f, "w").write(new)
            ov["Replace"][path] = f
    f = os.path.join(out, "overlay.json")
    json.dump(ov, open(f, "w"))
    return f


def skew_overlay(tmp, overlay):
    """The overlay with a standard library whose wall clock can be made to jump
    without the monotonic clock noticing. None if this toolchain's looks different."""
    ov = json.load(open(overlay))
    path = os.path.join(sh(["go", "env", "GOROOT"])[1].strip(), "src", "time", "time.go")
    text = open(path).read()
    mark = "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n"
    if text.count(mark) != 1:
        return None
    text = text.replace(mark, mark + "\tsec += VerifWallSkew\n")
    text += "\n// VerifWallSkew is added to the wall clock, in seconds.\nvar VerifWallSkew int64\n"
    out = os.path.join(tmp, "skew")
    os.mkdir(out)
    f = os.path.join(out, "time.go")
    open(f, "w").write(text)
    ov["Replace"][path] = f
    f = os.path.join(out, "overlay.json")
    json.dump(ov, open(f, "w"))
    return f


def winclock_overlay(tmp, overlay):
    """The overlay in which the clock of the Windows build replaces the usual one and
    reads a fake performance counter. None if there is no such thing in the tree."""
    ov = json.load(open(overlay))
    win = os.path.join(REPO, "monotime", "monotime_windows.go")
    usual = os.path.join(REPO, "monotime", "monotime_fallback.go")
    if not os.path.exists(win) or not os.path.exists(usual):
        return None
    text, n = re.subn(r'(?m)^(import |\t)"syscall"$', r'\1syscall "%s/verifsys"' % MONKIT, open(win).read())
    if n != 1:
        return None
    out = os.path.join(tmp, "winclock")
    os.mkdir(out)
    f = os.path.join(out, "clock.go")
    open(f, "w").write(text)
    ov["Replace"][usual] = f
    ov["Replace"][os.path.join(REPO, "verifsys", "verifsys.go")] = os.path.join(HARNESS, "yieldsrc", "winsys.go.txt")
    f = os.path.join(out, "overlay.json")
    json.dump(ov, open(f, "w"))
    return f


def add_generated(tmp, name, overlay, generated):
    """The overlay with generated files of the harness."""
    ov = json.load(open(overlay)) if overlay else {"Replace": {}}
    ov["Replace"].update(generated)
    f = os.path.join(tmp, "generated-%s-%s.json" % (name, "with" if overlay else "without"))
    json.dump(ov, open(f, "w"))
    return f


def build(pkg, name, tmp, overlay, generated):
    if name == "fk":
        overlay = fake_overlay(tmp, overlay)
    if name == "ws":
        overlay = skew_overlay(tmp, overlay)
    if name == "wc":
        overlay = winclock_overlay(tmp, overlay)
    race, ov, tags, env = BUILDS[name]
    out = os.path.join(tmp, "%s.%s.test" % (pkg, name))
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if REPO != "/repo":
        mod = os.path.join(tmp, name + ".mod")
        with open(mod, "w") as f:
            f.write(open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO))
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, name + ".sum"))
        cmd += ["-modfile", mod]
    if race:
        cmd.append("-race")
    if name == "noinl":
        cmd += ["-gcflags=all=-l"]
    tries = [(overlay, tags)] if ov and overlay else []
    tries.append((None, "" if name in ("ws", "wc") else tags))
    for over, tags in tries:
        c = list(cmd)
        if tags:
            c += ["-tags", tags]
        if generated:
            c += ["-overlay", add_generated(tmp, name, over, generated)]
        elif over:
            c += ["-overlay", over]
        rc, text = sh(c + ["./" + pkg], env=goenv(env))
        if rc == 0:
            return out, bool(over)
        if over:
            sys.stderr.write("build with yields failed, trying without:\n" + text + "\n")
    raise Err("%s (%s) does not build:\n%s" % (pkg, name, text))


def races(prefix):
    """Race reports, split into those with library frames and others."""
    ours, others = [], []
    for f in glob.glob(prefix + ".*"):
        for block in open(f, errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            (ours if (REPO + "/") in block or MONKIT in block else others).append(block.strip())
    return ours, others


def hang_verdict(text):
    """Goroutines that are stuck inside the library although the harness called it."""
    stuck = []
    for g in re.split(r"\n\n", text):
        if "verifh/" not in g or MONKIT not in g:
            continue
        for line in g.split("\n")[1:]:
            if line.startswith("\t"):
                continue
            fn = line.strip()
            if re.match(r"(runtime|sync|internal|time|context|testing|bufio|io|fmt|os|net)[./(]", fn):
                continue
            if fn.startswith(MONKIT + "/verifyield"):
                continue
            if fn.startswith(MONKIT):
                stuck.append(g)
            break
    return stuck


def run_mode(binary, mode, tier, seed, tmp, tag, timeout, only=None, extra=None, args=None):
    procs, rate = MODES[mode]
    out = os.path.join(tmp, "out.%s" % tag)
    env = dict(os.environ)
    env.pop("GODEBUG", None)
    scratch = os.path.join(tmp, "scratch." + tag)
    os.makedirs(scratch, exist_ok=True)
    env.update(VH_MODE=mode, VH_OUT=out, VERIF_SEED=str(seed), VERIF_TIER=tier,
               GOMAXPROCS=str(procs), VH_YIELD=str(rate), VH_SCRATCH=scratch, TMPDIR=scratch,
               GOTRACEBACK="all", GORACE="halt_on_error=0 log_path=%s.race history_size=2 atexit_sleep_ms=100" % out)
    if only:
        env["VH_ONLY"] = only
    env.update(extra or {})
    log = open(out + ".log", "w")
    p = subprocess.Popen([binary, "-test.timeout=0", "-test.run=^TestCheck$"] + (args or []), cwd=scratch, env=env,
                         stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    timed_out = False
    began = time.time()
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, signal.SIGQUIT)
        try:
            p.wait(timeout=15)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    log.close()
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    text = open(out + ".log", errors="replace").read()
    hang = None
    if os.path.exists(out + ".hang"):
        hang = open(out + ".hang", errors="replace").read()
    ours, others = races(out + ".race")
    return dict(tag=tag, rc=p.returncode, res=res, log=text, hang=hang, races=ours,
                other_races=others, timed_out=timed_out, wall=round(time.time() - began, 2))


def known_findings(pid):
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            found[m.group(2)] = m.group(3)
    return found


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rp = json.load(open(sys.argv[3]))
        only, seed, tier = rp["only"], rp["seed"], rp["tier"]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = check(pid, spec, tier, seed, tmp, t0, only)
    except Err as e:
        print("ERROR %s: %s" % (pid, e))
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def check(pid, spec, tier, seed, tmp, t0, only):
    pkg = pid.lower()
    runs = spec.get("runs", [("ry", "par"), ("ry", "y1"), ("ry", "y4")])
    if tier == "thorough":
        if "thorough_runs" in spec:
            runs = spec["thorough_runs"]
        else:
            runs = runs + [(r[0], "y2") + tuple(r[2:]) for r in runs if r[1] == "y4"]
    runs = [(0,) + tuple(r) for r in runs]
    repeat = spec.get("repeat_thorough")
    if tier == "thorough" and repeat:
        # cases that share a process get slower with their number
        runs = [(k,) + r[1:] for k in range(repeat) for r in runs]
    need = []
    for b in [r[1] for r in runs]:
        if b not in need:
            need.append(b)
    overlay = None
    if any(BUILDS[b][1] for b in need):
        # warm up the slow part of the build meanwhile
        overlay = make_overlay(tmp)
    generated = {}
    if "generate" in spec:
        for i, (path, text) in enumerate(sorted(__import__(spec["generate"]).generate(seed, tier).items())):
            f = os.path.join(tmp, "generated%d.go" % i)
            with open(f, "w") as out:
                out.write(text)
            generated[os.path.join(HARNESS, path)] = f
    bins, overlaid, errs = {}, {}, []

    def one(b):
        try:
            bins[b], overlaid[b] = build(pkg, b, tmp, overlay, generated)
        except Exception as e:  # noqa: BLE001
            errs.append(e)
    threads = [threading.Thread(target=one, args=(b,)) for b in need]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errs:
        raise Err(str(errs[0]))
    built = time.time() - t0

    timeout = spec.get("timeout", 500 if tier == "quick" else 7200)
    results = []

    def runone(i, rep, b, m, phase=""):
        extra = dict(spec.get("env") or {})
        if repeat:
            extra.update(VH_SEEDOFF=str(rep), VH_MULT="1")
        tag = "%s-%s-%d" % (b, m, i)
        if phase:
            extra["VH_PHASE"] = phase
            tag += "-" + phase
        results.append(run_mode(bins[b], m, tier, seed, tmp, tag, timeout, only=only, extra=extra))
    threads = [threading.Thread(target=runone, args=(i,) + tuple(r)) for i, r in enumerate(runs)]
    par = spec.get("parallel_runs", 3)
    for i in range(0, len(threads), par):
        for t in threads[i:i + par]:
            t.start()
        for t in threads[i:i + par]:
            t.join()
    results.sort(key=lambda r: r["tag"])

    violations, errors, knowns = [], [], {}
    listed = known_findings(pid)
    evals = events = 0
    hashes, samples, table, notes = set(), [], {}, {}
    for r in results:
        res = r["res"]
        if res:
            for name, st in res["scenarios"].items():
                evals += st["cases"]
                events += st["events"]
                e = table.setdefault(name, {"cases": 0, "events": 0, "distinct": set()})
                e["cases"] += st["cases"]
                e["events"] += st["events"]
            for name, hs in (res["hashes"] or {}).items():
                for x in hs or []:
                    hashes.add((name, x))
                    table[name]["distinct"].add(x)
            for name, ss in (res["samples"] or {}).items():
                for s in ss:
                    if len(samples) < 12 and not any(x.startswith(name + " ") for x in samples):
                        samples.append(s)
            for k, v in (res["notes"] or {}).items():
                notes[k] = max(notes.get(k, 0), v) if k.startswith("max_") else notes.get(k, 0) + v
            for v in res["violations"] or []:
                k = v.get("known")
                if k and k in listed:
                    knowns[k] = listed[k]
                    continue
                violations.append(dict(run=r["tag"], **v))
        for block in r["races"][:3]:
            violations.append(dict(run=r["tag"], scenario="race detector", case=-1,
                                   message="data race", log=block.split("\n")))
        for block in r["other_races"][:3]:
            # the library handed out something that is not safe to use
            violations.append(dict(run=r["tag"], scenario="race detector", case=-1,
                                   message="data race in user code", log=block.split("\n")))
        if r["hang"] is not None:
            stuck = hang_verdict(r["hang"])
            if stuck:
                violations.append(dict(run=r["tag"], scenario="watchdog", case=-1,
                                       message="call into the library never returned",
                                       log="\n\n".join(stuck[:10]).split("\n")))
            else:
                errors.append("no progress in %s:\n%s" % (r["tag"], r["hang"][:8000]))
        elif r["timed_out"]:
            errors.append("%s did not end in time\n%s" % (r["tag"], r["log"][-4000:]))
        elif not res or not res["done"]:
            if MONKIT in r["log"] or "DATA RACE" in r["log"]:
                violations.append(dict(run=r["tag"], scenario="crash", case=-1,
                                       message="process died: " + r["log"][:600],
                                       log=r["log"][:20000].split("\n")))
            elif not (res and res["violations"]):
                errors.append("%s ended early with %s:\n%s" % (r["tag"], r["rc"], r["log"][:6000]))

    for k in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (pid, knowns[k]))

    wall = time.time() - t0
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=spec["level"],
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(hashes), rule=spec["rule"], samples=samples,
            monitored_events=events,
            scenarios={n: dict(cases=e["cases"], events=e["events"], distinct=len(e["distinct"]))
                       for n, e in sorted(table.items())},
            measurements=notes,
            executions=[dict(run=r["tag"], yields_injected=bool(overlaid.get(r["tag"].split("-")[0])),
                             wall_s=r["wall"],
                             race_reports=len(r["races"])) for r in results],
        ),
        assumptions=spec.get("assumptions", [
            "the Go toolchain, its race detector and testing/synctest are correct",
            "held on the executions explored; says nothing about schedules and inputs never produced"]),
        wall_s=round(wall, 2), violations=len(violations))
    evdir = os.environ.get("VERIF_SCRATCH_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    if not only:
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    if violations:
        v = violations[0]
        replay = os.path.join(evdir, "replay-%s.json" % pid)
        onlyv = None
        if v["case"] >= 0:
            onlyv = "%s:%d" % (v["scenario"], v["case"])
        with open(replay, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, only=onlyv,
                           command="python3 runcheck.py %s --replay %s" % (pid, replay),
                           violations=violations), f, indent=1)
        for v in violations[:5]:
            print("%s [%s %s:%s] %s" % (pid, v["run"], v["scenario"], v["case"], v["message"][:1500]))
            if v["case"] < 0:
                print("\n".join(v["log"][:60]))
        for e in errors[:2]:
            print("also: " + e[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if errors:
        print("ERROR %s (inconclusive):\n%s" % (pid, "\n".join(errors)[:12000]))
        return 2
    if evals == 0 or not hashes:
        print("ERROR %s: nothing was observed" % pid)
        return 2
    if os.environ.get("VH_VERBOSE"):
        for n, e in sorted(table.items()):
            print("  %-26s cases %7d distinct %7d events %9d" % (n, e["cases"], len(e["distinct"]), e["events"]))
        for r in results:
            print("  ", r["tag"], r["wall"], {k: round(v, 1) for k, v in r["res"]["times"].items()})
        print("  ", notes)
    print("%s held: %d cases, %d distinct, %d events; built in %.1f s, total %.1f s" % (
        pid, evals, len(hashes), events, built, wall))
    return 0


if __name__ == "__main__":
    main()
