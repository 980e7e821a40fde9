#!/usr/bin/env python3
"""Decide one property of luxfi/zmq by exploring executions of the real code.

  check.py C05 [quick|thorough]     run the check of a property
  check.py --replay FILE            run one recorded execution, with its trace
  check.py --selftest               the litmus programs of the explorer itself
  check.py --scenario NAME [bound [seconds]]   explore one scenario

Builds /repo's working tree, rewritten to run under the controlled scheduler of
rt/mc, in a scratch directory that is removed afterwards.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/luxfi/zmq/v4"
GO = "/opt/veriftools/go1.26.10/bin"
NCPU = max(1, min(8, os.cpu_count() or 1))
START = time.time()

scratch = None
procs = set()
plock = threading.Lock()


def log(*a):
    print(*a, flush=True)


def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    e["PATH"] = GO + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def sh(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (" ".join(cmd[:4]), (r.stdout + r.stderr)[-6000:]))
    return r.stdout


def build(race):
    """Rewrites /repo and compiles the harness; returns {False: bin, True: racebin}."""
    env = goenv()
    rw = os.path.join(scratch, "rewrite")
    src = os.path.join(scratch, "src")
    os.makedirs(src)
    sh(["go", "build", "-o", rw, "."], os.path.join(HERE, "rewrite"), env)
    sh([rw, "-src", REPO, "-rt", os.path.join(HERE, "rt"), "-harness", os.path.join(HERE, "harness"), "-out", src], scratch, env)
    bins = {}

    def one(r):
        e = dict(env, CGO_ENABLED="1" if r else "0")
        out = os.path.join(scratch, "hr" if r else "h")
        cmd = ["go", "build", "-trimpath", "-o", out]
        if r:
            cmd += ["-race", "-gcflags=%s/internal/zzmc/...=-race=0 -l" % MOD]
        sh(cmd + ["./internal/zzharness"], src, e)
        bins[r] = out

    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, [False, True] if race else [False]))
    return bins


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_race():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


njob = [0]


def harness(binary, race, args, timeout):
    """Runs the harness binary; returns its result as a dict."""
    with plock:
        njob[0] += 1
        n = njob[0]
    d = os.path.join(scratch, "j%d" % n)
    os.makedirs(d)
    out, err, rl = (os.path.join(d, x) for x in ("out", "err", "race"))
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": d, "GOTRACEBACK": "all",
           "GORACE": "log_path=%s halt_on_error=0 history_size=5 exitcode=0" % rl}
    with open(err, "wb") as ef:
        p = subprocess.Popen([binary] + args + ["-out", out, "-racelog", rl], cwd=d, env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef,
                             preexec_fn=limits_race if race else limits)
    with plock:
        procs.add(p)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rc = "timeout"
    with plock:
        procs.discard(p)
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    if res is None:
        tail = open(err, "rb").read()[:200000].decode("utf8", "replace")
        res = {"error": "harness ended (%s) without a result: %s" % (rc, tail[-1500:]), "executions": 0, "states": 0, "transitions": 0, "failures": []}
        m = re.search(r"^(fatal error: .*|runtime: goroutine stack exceeds.*|panic: .*)$", tail, re.M)
        if m and rc == 2:
            try:
                cur = json.load(open(out + ".cur"))
            except Exception:
                cur = None
            if cur is not None and "all goroutines are asleep" not in m.group(1):
                sig = "crash: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:120]
                res = {"executions": 1, "states": 0, "transitions": 0, "scenario": cur["scenario"],
                       "failures": [{"kind": "crash", "sig": sig, "msg": "the process ended: " + m.group(1), "stack": tail[:6000],
                                     "scenario": cur["scenario"], "choices": cur["choices"], "deviations": 0, "executions_failing": 1}]}
    shutil.rmtree(d, ignore_errors=True)
    for k in ("failures", "samples"):
        res[k] = res.get(k) or []
    res["outcomes"] = res.get("outcomes") or {}
    return res


def replay_args(f):
    return ["-run", f["scenario"], "-replay", ",".join(map(str, f["choices"] or []))]


def confirm(bins, f):
    """Replays a failure five times in fresh processes."""
    race = f.get("race", False)
    with cf.ThreadPoolExecutor(5) as ex:
        rs = list(ex.map(lambda _: harness(bins[race], race, replay_args(f), 120), range(5)))
    same = sum(1 for r in rs if any(g["sig"] == f["sig"] or f["kind"] == g["kind"] == "race" for g in r["failures"]))
    return same >= 3


def findings():
    """Lines: finding: property=C01 scenario=<name> sig=<signature> :: <what fails>"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) sig=(.*?) :: (.*)$", l.strip())
            if m:
                out.append(dict(property=m.group(1), scenario=m.group(2), sig=m.group(3), what=m.group(4)))
    return out


def run_check(prop, tier):
    deep = tier == "thorough"
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {}, "assumptions": ASSUME, "wall_s": 0, "violations": 0}
    bins = build(True)
    t_build = time.time() - START
    scs = json.loads(subprocess.run([bins[False], "-list"], capture_output=True, text=True).stdout)
    scs = [s for s in scs if prop in s["Prop"]]
    if not scs:
        log("ERROR no scenario for", prop)
        return 2
    budget = 2400 if deep else 240          # seconds for all jobs together
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    cap = 1500 if deep else 60              # seconds for one job
    t_end = time.time() + budget
    jobs = []
    for s in scs:
        b = s["Deep"] if deep else s["Quick"]
        n = 0 if b < 0 else max(1, (s["DeepShards"] or s["QuickShards"]) if deep else s["QuickShards"])
        for i in range(n):
            jobs.append((s, b, i, n, False))
        if s["Race"] and s["RaceBound"] + deep >= 0:
            jobs.append((s, s["RaceBound"] + deep, 0, 1, True))
    # heavy first, breadth over scenarios
    jobs.sort(key=lambda j: -(j[0]["Weight"] or 1))
    stop = threading.Event()

    def job(j):
        s, b, i, n, race = j
        left = t_end - time.time()
        if left < 2 or stop.is_set():
            return j, None
        secs = min(left, cap * (s["Weight"] or 1))
        r = harness(bins[race], race, ["-run", s["Name"], "-bound", str(b), "-shard", str(i), "-shards", str(n), "-secs", "%.1f" % secs], secs + 150)
        if r["failures"] and not deep:
            known = findings()
            for f in r["failures"]:
                if not any(k["property"] == prop and k["scenario"] == s["Name"] and k["sig"] == f["sig"] for k in known):
                    stop.set()
        return j, r

    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(job, jobs))

    known = findings()
    viol, shown, errors, unconfirmed = [], set(), [], []
    per = {}
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, schedules_pruned_as_equivalent=0, samples=[])
    exhaustive = True
    fails = {}
    for (s, b, i, n, race), r in results:
        e = per.setdefault(s["Name"] + (" [race detector]" if race else ""), dict(bound=b, shards=n, executions=0, states=0, transitions=0, bound_completed=None, complete=True, all_schedules=True, max_decisions=0, max_goroutines=0, distinct_outcomes=set()))
        if r is None:
            e["complete"] = e["all_schedules"] = False
            exhaustive = False
            continue
        if r.get("error"):
            errors.append("%s: %s" % (s["Name"], r["error"][:3000]))
        e["executions"] += r["executions"]
        e["states"] += r["states"]
        e["transitions"] += r["transitions"]
        e["complete"] &= bool(r.get("exhaustive"))
        e["all_schedules"] &= bool(r.get("all_schedules"))
        bc = r.get("bound_completed", -1)
        e["bound_completed"] = bc if e["bound_completed"] is None else min(bc, e["bound_completed"])
        for k in ("max_decisions", "max_goroutines"):
            e[k] = max(e[k], r.get(k, 0))
        e["distinct_outcomes"].update(r["outcomes"])
        exhaustive &= bool(r.get("exhaustive"))
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["executions"]
        cov["schedules_pruned_as_equivalent"] += r.get("pruned", 0)
        cov["samples"] += r["samples"][:1]
        for f in r["failures"]:
            f["race"] = race
            k = (s["Name"], f["sig"])
            if k not in fails or len(f["choices"] or []) < len(fails[k]["choices"] or []):
                fails[k] = f
    for (name, sig), f in fails.items():
        kf = [k for k in known if k["property"] == prop and k["scenario"] == name and k["sig"] == sig]
        if kf:
            if (name, sig) not in shown:
                shown.add((name, sig))
                log("KNOWN-FINDING: property=%s %s [%s: %s]" % (prop, kf[0]["what"], name, sig))
            continue
        if len(viol) >= 3:
            break
        if not confirm(bins, f):
            unconfirmed.append("%s: %s" % (name, sig))
            continue
        viol.append(f)
    rdir = os.path.join(HERE, "evidence", "replays")
    for n, f in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (prop, n + 1))
        json.dump(dict(property=prop, **f), open(p, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, p))
        log("  scenario %s%s: %s: %s\n  %s" % (f["scenario"], " [race detector]" if f["race"] else "", f["kind"], f["sig"], f["msg"][:600].replace("\n", "\n  ")))
    for e in per.values():
        e["distinct_outcomes"] = len(e["distinct_outcomes"])
    cov["samples"] = cov["samples"][:12]
    cov["exhaustive"] = exhaustive and not errors
    cov["scenarios"] = per
    cov["scenarios_run"] = len(per)
    cov["build_s"] = round(t_build, 1)
    cov["explanation"] = EXPLAIN
    if errors:
        cov["errors"] = errors
    if unconfirmed:
        cov["unconfirmed"] = unconfirmed
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - START, 1)
    ev["violations"] = len(viol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for x in errors:
        log("ERROR", x.split("\n")[0][:500])
    for x in unconfirmed:
        log("NOTE not reproduced, not reported:", x)
    inc = sum(1 for e in per.values() if not e["complete"])
    log("%s %s: %d scenarios (%d cut short), %d executions, %d states, %d transitions, %.0f s" % (
        prop, tier, len(per), inc, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], time.time() - START))
    if viol:
        return 1
    if len(errors) * 2 > len(per):
        return 2
    return 0


EXPLAIN = ("Each execution runs the real code of /repo (rewritten so that goroutines, channels, locks, timers and the network are "
           "scheduled by the explorer). states: distinct happens-before classes reached; transitions: scheduled steps; "
           "traces_validated_against_impl: executions of the implementation itself, there is no separate model. bound: number of "
           "deviations from the default schedule (preemptions, wake-up orders, network faults); complete: every execution within the "
           "bound was run; all_schedules: nothing was cut off by the bound.")
ASSUME = [
    "sequentially consistent memory between scheduling points (data races are looked for separately with the race detector)",
    "simulated network: ordered byte streams with bounded buffers, virtual time; kernel TCP and Unix sockets are trusted to behave like it",
    "the rewriter's replacements of go, chan, select, sync, context, time and net keep Go's semantics (litmus programs in setup_cmd)",
]


def selftest():
    bins = build(True)
    scs = json.loads(subprocess.run([bins[False], "-list"], capture_output=True, text=True).stdout)
    try:
        exp = json.load(open(os.path.join(HERE, "lib", "litmus.json")))
    except FileNotFoundError:
        exp = {}
    bad = 0

    def one(j):
        s, race = j
        return s, race, harness(bins[race], race, ["-run", s["Name"], "-bound", "3", "-secs", "60"], 120)

    jobs = [(s, r) for s in scs if "SELF" in s["Prop"] for r in (False, True)]
    got = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for s, race, r in ex.map(one, jobs):
            v = {"outcomes": sorted(r["outcomes"]), "failures": sorted({f["kind"] for f in r["failures"]}), "error": bool(r.get("error"))}
            k = s["Name"] + ("/race" if race else "")
            got[k] = v
            if exp.get(k) != v:
                bad += 1
                log("litmus %s: got %s, expected %s %s" % (k, v, exp.get(k), r.get("error", "")[:300]))
    if os.environ.get("LITMUS_WRITE"):
        json.dump(got, open(os.path.join(HERE, "lib", "litmus.json"), "w"), indent=1, sort_keys=True)
    log("selftest: %d litmus programs, %d wrong" % (len(got), bad))
    return 1 if bad else 0


def main():
    global scratch
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    base = os.environ.get("TMPDIR", "/tmp")
    scratch = tempfile.mkdtemp(prefix="vzmq-", dir=base)

    def cleanup(*_):
        with plock:
            for p in procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)

    def term(*_):
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGINT, term)
    try:
        if a[0] == "--selftest":
            return selftest()
        if a[0] == "--replay":
            f = json.load(open(a[1]))
            bins = build(f.get("race", False))
            r = harness_trace(bins[f.get("race", False)], f)
            return r
        if a[0] == "--scenario":
            bins = build(False)
            r = harness(bins[False], False, ["-run", a[1], "-bound", a[2] if len(a) > 2 else "1", "-secs", a[3] if len(a) > 3 else "60"], 4000)
            print(json.dumps(r, indent=1)[:20000])
            return 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return run_check(a[0], tier)
    except RuntimeError as e:
        log("ERROR", e)
        return 2
    finally:
        cleanup()


def harness_trace(binary, f):
    rl = os.path.join(scratch, "race")
    env = dict(os.environ, GORACE="log_path=%s halt_on_error=0 exitcode=0" % rl)
    p = subprocess.run([binary] + replay_args(f) + ["-v", "-racelog", rl], env=env, cwd=scratch, capture_output=True, text=True)
    print(p.stdout)
    print(p.stderr[-8000:], file=sys.stderr)
    return 0


if __name__ == "__main__":
    sys.exit(main())
