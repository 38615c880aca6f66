#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

 1. builds the harness (and with it the library) from /repo's working tree;
 2. TLC checks the property on the specification itself (design models), and
    for stateful parts prints the behaviours to be replayed;
 3. the harness drives the real code and records what it observed;
 4. TLC validates every recorded line against the specification.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: tool error.
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
CLASSES = os.path.join(BUILD, "classes")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROPS = json.load(open(os.path.join(ROOT, "props.json")))


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_java():
    src = os.path.join(ROOT, "java", "Real64.java")
    out = os.path.join(CLASSES, "Real64.class")
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    r = sh(["javac", "-cp", CP, "-d", CLASSES, src])
    if r.returncode:
        raise ToolError("javac failed:\n" + r.stdout)


def build_harness(binary):
    fp = os.path.join(TARGET, "release", ".fingerprint")
    if os.path.isdir(fp):  # always recompile the library from the tree as it is now
        for d in os.listdir(fp):
            if d.startswith("material-color-utilities-rs-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "build", "--release", "--offline"] + (["--bin", binary] if binary else ["--bins"])
    r = sh(cmd, cwd=os.path.join(ROOT, "harness"), env=env)
    if r.returncode:
        raise ToolError("harness does not build:\n" + r.stdout[-6000:])


class Tlc:
    """One TLC run."""

    def __init__(self, module, cfg, work, tag, env=None, judge=False):
        self.module, self.cfg, self.tag = module, cfg, tag
        meta = os.path.join(work, "tlc-" + tag)
        cmd = ["java", "-Xss64m", "-Xmx10g", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", CLASSES + ":" + CP, "tlc2.TLC",
               "-workers", "8", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, module + ".tla"]
        t = time.time()
        log = os.path.join(work, tag + ".log")
        with open(log, "w") as f:
            try:
                self.rc = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=dict(os.environ, **(env or {})),
                                         stdout=f, stderr=subprocess.STDOUT, timeout=3000).returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out: " + tag)
        self.out = open(log, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        self.wall = time.time() - t
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"Finished computing initial states: (\d+) (?:distinct )?state", self.out)
        self.initial = int(m.group(1)) if m else 0
        self.violated = self.rc == 12 or "is violated" in self.out
        # a recorded line the specification cannot even interpret (an answer of
        # the wrong shape: a list too short, a number where none can be)
        self.shape = judge and self.rc in (75, 76) and not self.violated
        self.violated = self.violated or self.shape
        if self.rc not in (0, 12) and not self.violated:
            raise ToolError("TLC failed (%s, rc %s):\n%s" % (tag, self.rc, tail(self.out)))

    def clauses(self):
        c = sorted(set(re.findall(r'<<\s*"CLAUSE",\s*"([^"]*)"\s*>>', self.out)))
        return c + (["answers have the shape the specification gives them"] if self.shape else [])

    def index(self):
        """Index of the rejected line in the trace, from the last state shown."""
        m = re.findall(r"(?:/\\ |^)(?:zLine|zHist) = (\d+)", self.out, re.M)
        return int(m[-1]) if m else None


def tail(s, n=40):
    keep = [l for l in s.splitlines() if not re.match(r"Loading |Parsing |Semantic |Linting |Computed ", l)]
    return "\n".join(keep[-n:])


def run_harness(binary, pid, seed, tier, work, hist):
    cmd = [os.path.join(TARGET, "release", binary), "--prop", pid, "--seed", str(seed), "--tier", tier, "--dir", work]
    if hist:
        cmd += ["--in", hist]

    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    for attempt in (1, 2):
        try:
            r = sh(cmd, preexec_fn=limit, timeout=500 if tier == "quick" else 3000)
        except subprocess.TimeoutExpired:
            raise ToolError("harness timed out")
        if r.returncode == 0:
            return None
        if r.returncode == 7:  # a call under test did not return within a minute
            return open(os.path.join(work, "hang.ndjson")).read()
        if r.returncode > 0 and r.returncode != 101:
            raise ToolError("harness failed (%d):\n%s" % (r.returncode, r.stdout[-3000:]))
        if r.returncode == 101:
            raise ToolError("harness panicked outside a guarded call:\n" + r.stdout[-3000:])
    # twice the same way: the code under test killed the process (abort, stack overflow, memory)
    return json.dumps({"op": "crash", "panic": "process ended by signal %d: %s" % (-r.returncode, r.stdout[-300:])}) + "\n"


def violation(pid, work, what, clauses, event, index=None):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    json.dump({"property": pid, "found_by": what, "violated_clauses": clauses, "trace_line": index, "event": event},
              open(path, "w"), indent=1)
    for c in clauses:
        print("  clause:", c)
    print("  event:", json.dumps(event)[:1500])
    print("VIOLATION property=%s replay=%s" % (pid, path))


def main():
    args = sys.argv[1:]
    pid = args[0]
    if pid == "--setup":  # build everything once
        compile_java()
        build_harness(None)
        return 0
    opt = lambda k, d: args[args.index(k) + 1] if k in args else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
    P = PROPS[pid]
    t0 = time.time()
    work = os.path.join(BUILD, "work", pid + "-" + str(os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return check(pid, P, tier, seed, work, t0, opt("--replay", None))
    except ToolError as e:
        print("ERROR property=%s: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def check(pid, P, tier, seed, work, t0, replay):
    tmod, tcfg = P["trace"]
    compile_java()
    if replay:
        tr = os.path.join(work, "trace.ndjson")
        open(tr, "w").write(json.dumps(json.load(open(replay))["event"]) + "\n")
        t = Tlc(tmod, tcfg, work, "trace", {"TRACE": tr}, judge=True)
        print("rejected: %s %s" % (t.violated, t.clauses()))
        return 1 if t.violated else 0

    # the library builds while TLC works on the design
    err = []

    def build():
        try:
            build_harness(P["bin"])
        except ToolError as e:
            err.append(e)

    th = threading.Thread(target=build)
    th.start()
    runs, hist_lines = [], []
    try:
        for d in P["design"]:
            mod, cfg = d["module"], d.get("cfg_thorough", d["cfg"]) if tier == "thorough" else d["cfg"]
            r = Tlc(mod, cfg, work, "design-" + cfg.replace(".cfg", ""), {"VERIF_SEED": str(seed)})
            if r.violated:
                raise ToolError("the specification itself breaks the property (%s):\n%s" % (cfg, tail(r.out)))
            if r.distinct <= 1:
                raise ToolError("design model explored nothing: " + cfg)
            runs.append(r)
            hist_lines += re.findall(r'"HIST ([^"\n]*)"', r.out)
    finally:
        th.join()
    if err:
        raise err[0]
    hist = None
    if hist_lines:
        hist = os.path.join(work, "hist.txt")
        open(hist, "w").write("\n".join(sorted(set(hist_lines))) + "\n")

    crash = run_harness(P["bin"], pid, seed, tier, work, hist)
    if crash:
        ev = json.loads(crash)
        evidence(pid, tier, seed, t0, runs, None, {}, [ev], 1)
        violation(pid, work, "harness", ["every call returns"], ev)
        return 1
    trace = os.path.join(work, "trace.ndjson")
    events = open(trace).read().splitlines()
    stats = json.load(open(os.path.join(work, "stats.json")))
    if not events:
        raise ToolError("nothing recorded")
    t = Tlc(tmod, tcfg, work, "trace", {"TRACE": trace}, judge=True)
    if t.violated:
        i = t.index()
        ev = json.loads(events[i - 1]) if i and i <= len(events) else {}
        evidence(pid, tier, seed, t0, runs, t, stats, events, 1)
        violation(pid, work, "TLC rejects a recorded call (%s)" % tmod, t.clauses(), ev, i)
        return 1
    # every line must have been consumed
    if tmod.startswith("T_") and P.get("lines", True) and t.distinct < len(events):
        raise ToolError("trace not fully consumed: %d states for %d lines" % (t.distinct, len(events)))
    evidence(pid, tier, seed, t0, runs, t, stats, events, 0)
    print("OK property=%s: design %d states, %d calls evaluated, %d recorded lines accepted, %.1f s" % (
        pid, sum(r.distinct for r in runs), stats.get("evaluations", 0), len(events), time.time() - t0))
    return 0


def evidence(pid, tier, seed, t0, runs, t, stats, events, violations):
    allr = runs + ([t] if t else [])
    kinds = {}
    for e in events:
        m = re.match(r'\{"op":"([^"]*)"', e) if isinstance(e, str) else None
        k = m.group(1) if m else "event"
        kinds[k] = kinds.get(k, 0) + 1
    step = max(1, len(events) // 3)
    samples = [e if len(str(e)) > 1200 else json.loads(e) if isinstance(e, str) else e for e in events[step // 2::step][:3]]
    samples = [s[:1200] + "..." if isinstance(s, str) else s for s in samples]
    cov = {
        "states": sum(r.distinct for r in allr),
        "transitions": sum(max(0, r.generated - r.initial) for r in allr),
        "traces_validated_against_impl": len(events),
        "samples": samples,
        "calls_evaluated_in_implementation": int(stats.get("evaluations", 0)),
        "recorded_by_operation": kinds,
        "calls_singled_out_by_steering": int(stats.get("suspects", 0)),
        "behaviours_generated_by_tlc": int(stats.get("tlc_behaviours", 0)),
        "design_models": [{"model": r.module, "config": r.cfg, "states": r.distinct, "wall_s": round(r.wall, 1)} for r in runs],
        "scans": {k[5:]: v for k, v in stats.items() if k.startswith("scan_")},
    }
    if t:
        cov["trace_model"] = {"model": t.module, "config": t.cfg, "states": t.distinct, "wall_s": round(t.wall, 1)}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": ["java/Real64.java gives TLC IEEE-754 binary64 arithmetic",
                        "the harness reports arguments and results of public calls faithfully"],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
