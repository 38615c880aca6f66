#!/usr/bin/env python3
"""How sharp is the specification?  For one property: record the trace of the
current tree, corrupt one recorded value at a time, and let TLC judge every
corrupted line by the property's own trace specification.  Lists the recorded
values whose corruption is never (or rarely) noticed.  Not a registered check:
it looks for holes in the specification, not in the library.

usage: selftest.py C05 [samples-per-field] [--list]"""
import json, math, os, random, re, shutil, struct, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check

HIST = lambda m: "HistBase" in m or "zHist" in m


def real(v):
    return struct.unpack(">d", struct.pack(">ii", v[0], v[1]))[0]


def unreal(x):
    return list(struct.unpack(">ii", struct.pack(">d", x)))


def is_real(v):
    if not (isinstance(v, list) and len(v) == 2 and all(type(x) is int for x in v)):
        return False
    if v == [0, 0]:
        return True
    x = real(v)
    return math.isfinite(x) and (1e-12 < abs(x) < 1e12)


def leaves(v, path, norm):
    if is_real(v) or not isinstance(v, (list, dict)):
        yield path, norm, v
    elif isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + [k], norm + "." + k)
    else:
        if v:
            yield path, norm + "[]", ("list", v)
        # up to three elements of a list, of each kind of position
        for k in sorted({0, len(v) // 2, len(v) - 1} if len(v) > 12 else range(len(v))):
            tag = "[*]" if len(v) > 12 or not all(isinstance(x, (list, dict)) or True for x in v) else "[%d]" % k
            yield from leaves(v[k], path + [k], norm + tag)


def corruptions(v):
    if isinstance(v, tuple):  # a list as a whole
        l = v[1]
        out = [("dup", l + [l[-1]])]
        if len(l) > 1 and l[0] != l[-1]:
            out.append(("swap", [l[-1]] + l[1:-1] + [l[0]]))
        return out
    if isinstance(v, bool):
        return [("flip", not v)]
    if is_real(v):
        x = real(v)
        return [("big", unreal(x * 1.3 + 1.7)), ("mid", unreal(x + 0.05)), ("small", unreal(x * (1 + 1e-5) + 1e-5))]
    if isinstance(v, int):
        if abs(v) > 1000000:
            s = v + 0x000300 if (v >> 8) & 255 < 250 else v - 0x000300
            return [("chan", s), ("plus", v + 1 if v & 255 < 255 else v - 1)]
        return [("plus", v + 1), ("minus", v - 1)]
    if isinstance(v, str):
        return [("tail", v + "x")]
    return []


def put(e, path, v):
    e = json.loads(json.dumps(e))
    t = e
    for k in path[:-1]:
        t = t[k]
    t[path[-1]] = v
    return e


def main():
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2].isdigit() else 6
    P = check.PROPS[pid]
    work = "/tmp/selftest-" + pid
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    keep = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), pid], env=dict(os.environ, VERIF_KEEP="1"),
                          stdout=subprocess.PIPE, text=True)
    d = sorted((os.path.getmtime(p), p) for p in
               [os.path.join(ROOT, ".build/work", x) for x in os.listdir(os.path.join(ROOT, ".build/work")) if x.startswith(pid + "-")])[-1][1]
    events = [json.loads(l) for l in open(os.path.join(d, "trace.ndjson"))]
    shutil.rmtree(d)
    rnd = random.Random(7)
    rnd.shuffle(events)
    pool = {}
    for e in events:
        if len(json.dumps(e)) > 60000:
            continue
        for path, norm, v in leaves(e, [], e["op"]):
            if norm.endswith(".op"):
                continue
            k = pool.setdefault(norm, [])
            if len(k) < n:
                k.append((e, path, v))
    lines, what = [], []
    for norm, ks in sorted(pool.items()):
        for e, path, v in ks:
            for kind, w in corruptions(v):
                if isinstance(v, tuple):
                    c = put(e, path, w) if path else None
                else:
                    c = put(e, path, w)
                if c is not None and c != e:
                    lines.append(c)
                    what.append((norm, kind))
    tmod, tcfg = P["trace"]
    spec = os.path.join(work, "spec")
    shutil.copytree(os.path.join(ROOT, "spec"), spec)
    hist = HIST(open(os.path.join(spec, tmod + ".tla")).read())
    var = "zHist" if hist else "zLine"
    mod = tmod + "_Self"
    open(os.path.join(spec, mod + ".tla"), "w").write(
        "---- MODULE %s ----\nEXTENDS %s\nReport == zOk \\/ PrintT(<<\"REJ\", %s>>)\n====\n" % (mod, tmod, var))
    cfg = open(os.path.join(spec, tcfg)).read().replace("INVARIANT Conforms", "INVARIANT Report")
    if "Report" not in cfg:
        cfg = re.sub(r"(INVARIANTS?\s+)\w+", r"\1Report", cfg)
    open(os.path.join(spec, "self.cfg"), "w").write(cfg)
    check.compile_java()
    rej = set()
    alive = list(range(len(lines)))
    rounds = 0
    while alive and rounds < 60:
        rounds += 1
        tr = os.path.join(work, "trace.ndjson")
        open(tr, "w").write("\n".join(json.dumps(lines[i]) for i in alive) + "\n")
        cmd = ["java", "-Xss64m", "-Xmx6g", "-cp", check.CLASSES + ":" + check.CP, "tlc2.TLC", "-workers", "4", "-noGenerateSpecTE",
               "-metadir", os.path.join(work, "meta"), "-config", "self.cfg", mod + ".tla"]
        r = subprocess.run(cmd, cwd=spec, env=dict(os.environ, TRACE=tr), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        now = {alive[int(x) - 1] for x in re.findall(r'<<\s*"REJ",\s*(\d+)\s*>>', r.stdout)}
        rej |= now
        if r.returncode == 0:
            break
        # the line TLC could not evaluate: a rejection by shape
        m = re.findall(r"(?:/\\ |^)%s = (\d+)" % var, r.stdout, re.M)
        if not m:
            print(r.stdout[-1500:])
            return 2
        bad = alive[int(m[-1]) - (0 if not hist else 1)] if int(m[-1]) - (0 if not hist else 1) < len(alive) else alive[-1]
        rej.add(bad)
        alive = [i for i in alive if i not in rej]
    stat = {}
    for i, (norm, kind) in enumerate(what):
        s = stat.setdefault(norm, {}).setdefault(kind, [0, 0])
        s[1] += 1
        s[0] += i in rej
    print("%s: %d corrupted lines, %d rejected, %d values, rounds %d" % (pid, len(lines), len(rej), len(stat), rounds))
    for norm, ks in sorted(stat.items()):
        tot = sum(b for _, b in ks.values())
        got = sum(a for a, _ in ks.values())
        weak = [k for k, (a, b) in ks.items() if a < b and k in ("big", "flip", "chan", "tail", "dup", "swap", "plus", "minus", "mid")]
        if "--list" in sys.argv or got == 0 or all(a == 0 for k, (a, b) in ks.items() if k in ("big", "flip", "plus", "chan")) or got < tot / 2:
            print("  %-28s %s" % (norm, " ".join("%s %d/%d" % (k, a, b) for k, (a, b) in ks.items())))
    shutil.rmtree(work)
    return 0


sys.exit(main())
