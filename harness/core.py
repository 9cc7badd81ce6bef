"""Machinery of the checks: model check, drive FIAT, let TLC judge the recorded events.

A check is: (1) TLC model-checks the specification and prints scenarios, (2) drivers run the real
code on them and record what they observed, (3) TLC validates the recorded events against the
specification (TraceFiat.tla), (4) verdicts are compared with the known findings.
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
DEEP = TIER == "thorough"


class CheckError(Exception):
    """The machinery failed: neither a pass nor a violation."""


# ---------------------------------------------------------------- numbers
Q38 = float(2 ** 38)
MASK = (1 << 30) - 1
BAD = [2147483647, 0]


def num(x):
    """A float as the fixed-point pair of Num.tla."""
    x = float(x)
    if not math.isfinite(x) or abs(x) > 8.0e6:
        return BAD
    v = int(round(x * Q38))
    return [v >> 30, v & MASK]


def nums(arr):
    import numpy
    a = numpy.asarray(arr, dtype=float).ravel()
    if a.size == 0:
        return []
    ok = numpy.isfinite(a) & (numpy.abs(a) <= 8.0e6)
    v = numpy.rint(numpy.where(ok, a, 0.0) * Q38).astype(numpy.int64)
    hi, lo = v >> 30, v & MASK
    hi = numpy.where(ok, hi, BAD[0])
    lo = numpy.where(ok, lo, 0)
    return numpy.stack([hi, lo], axis=1).tolist()


# ---------------------------------------------------------------- TLC
def classes():
    """Compiled Java overrides (built on demand, per content)."""
    src = [os.path.join(SPEC, f) for f in sorted(os.listdir(SPEC)) if f.endswith(".java")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    out = os.path.join(BUILD, "cls-" + h)
    if os.path.isfile(os.path.join(out, "ok")):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(["javac", "-cp", JARS, "-d", tmp] + src, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("javac: " + r.stderr[-2000:])
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, env=None, workers=1, heap="3g", timeout=800, cfg=None, extra=(), overrides=True):
    """Run TLC on a module of the specification; returns (returncode, stdout)."""
    meta = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    e["TIER"] = TIER
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.awt.headless=true",
           "-cp", classes() + ":" + JARS if overrides else JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s ran out of time" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def stats(out):
    m = STATS.findall(out.replace(",", "") if False else out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def spec_hash():
    h = hashlib.sha256(TIER.encode())
    for f in sorted(os.listdir(SPEC)):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    return h.hexdigest()[:16]


def emitted(module, tag, env=None, workers=NPROC, heap="6g", cfg=None):
    """Model-check a generator module; returns (emitted JSON values, stats).  The result depends on the
    specification alone, so it is kept in build/ under the hash of the specification."""
    name = "%s-%s" % (module if cfg is None else cfg, spec_hash())
    if env:
        name += "-" + hashlib.sha256(json.dumps(env, sort_keys=True).encode()).hexdigest()[:8]
    path = os.path.join(BUILD, name + ".json")
    try:
        with open(path) as f:
            d = json.load(f)
        return d["items"], d["stats"]
    except (OSError, ValueError):
        pass
    rc, out = tlc(module, env, workers, heap, cfg=cfg)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("model checking %s failed:\n%s" % (module, out[-3000:]))
    items, seen = [], set()
    for line in out.splitlines():
        if line.startswith('<<"' + tag + '", "') and line.endswith('">>'):
            s = json.loads(line[len('<<"' + tag + '", '):-2])
            if s not in seen:
                seen.add(s)
                items.append(s)
    items.sort()
    items = [json.loads(s) for s in items]
    st = stats(out)
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=BUILD)
    with os.fdopen(fd, "w") as f:
        json.dump({"items": items, "stats": st}, f)
    os.replace(tmp, path)
    return items, st


def setup():
    """Compile the overrides, check them against the TLA+ definitions, generate the scenarios."""
    with tempfile.TemporaryDirectory() as d:
        res = []
        for ov in (True, False):
            path = os.path.join(d, "num%d.json" % ov)
            rc, out = tlc("SelfTestNum", {"OUT": path}, overrides=ov)
            if rc != 0 or not os.path.exists(path):
                raise CheckError("SelfTestNum: " + out[-1000:])
            res.append(json.load(open(path)))
        if res[0] != res[1]:
            raise CheckError("Num.java and Num.tla differ")
    terms()
    emitted("Spans", "SPAN")
    return 0


def terms():
    return emitted("Algebra", "TERM")


# ---------------------------------------------------------------- judging
def judge(events, workdir, tag, prop):
    """TLC validates a batch of events; returns (verdicts [(index, [clause...])], states, distinct)."""
    path = os.path.join(workdir, tag + ".json")
    out = os.path.join(workdir, tag + ".out")
    with open(path, "w") as f:
        json.dump({"prop": prop, "events": events}, f, separators=(",", ":"))
    if os.path.exists(out):
        os.remove(out)
    rc, log = tlc("TraceFiat", {"TRACE": path, "OUT": out}, heap="3g", extra=["-lncheck", "final"])
    if rc == 0 and os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        os.remove(path)
        if res["n"] != len(events):
            raise CheckError("trace validation stopped early")
        gen, dist = stats(log)
        bad = res["bad"]
        return [(b["at"] - 1, b["why"]) for b in bad], gen, dist
    if any(s in log for s in ("OutOfMemory", "Java heap", "StackOverflow", "Could not create", "Parsing or semantic",
                              "ConfigFileException", "Could not find")):
        raise CheckError("TLC failed on %s (%d events):\n%s" % (tag, len(events), log[-3000:]))
    if len(events) == 1:
        if os.environ.get("VERIF_TLCLOG"):
            sys.stderr.write(log[-3000:])
        return [(0, ["the specification cannot explain this event"])], 0, 0
    h = len(events) // 2
    a, g1, d1 = judge(events[:h], workdir, tag + "a", prop)
    b, g2, d2 = judge(events[h:], workdir, tag + "b", prop)
    return a + [(i + h, w) for i, w in b], g1 + g2, d1 + d2


def _size(ev):
    n = 0
    st = [ev]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            st.extend(x.values())
        elif isinstance(x, list):
            if x and isinstance(x[0], int):
                n += len(x)
            else:
                st.extend(x)
                n += 1
        else:
            n += 1
    return n


LIMIT = 900000           # leaves per batch


def _worker(args):
    prop, driver, tasks, w, workdir, deadline = args
    sys.setrecursionlimit(100000)
    res = {"bad": [], "events": 0, "states": 0, "distinct": 0, "kinds": {}, "sample": None, "err": None, "t": [0, 0],
           "size": 0}
    try:
        mod = __import__(driver)
        batch, size, nb = [], 0, 0

        def flush():
            nonlocal batch, size, nb
            if not batch:
                return
            t0 = time.time()
            bad, gen, dist = judge(batch, workdir, "w%d_%d" % (w, nb), prop)
            res["t"][1] += time.time() - t0
            nb += 1
            for i, why in bad:
                res["bad"].append((batch[i], why))
            res["states"] += gen
            res["distinct"] += dist
            res["events"] += len(batch)
            res["size"] += size
            batch, size = [], 0

        for task in tasks:
            t0 = time.time()
            try:
                evs = list(mod.observe(prop, task))
            except CheckError:
                raise
            except Exception as exc:                           # the code under test raised
                evs = [{"k": "exc", "id": mod.name(task), "what": "%s: %s" % (type(exc).__name__, str(exc)[:300]),
                        "tb": traceback.format_exc()[-1500:].replace("\\", "/")}]
            res["t"][0] += time.time() - t0
            for ev in evs:
                ev.setdefault("id", mod.name(task))
                ev["prop"] = prop
                ev["task"] = json.dumps(task)
                res["kinds"][ev["k"]] = res["kinds"].get(ev["k"], 0) + 1
                n = _size(ev)
                if size + n > LIMIT:
                    flush()
                batch.append(ev)
                size += n
                if res["sample"] is None and ev["k"] != "exc":
                    res["sample"] = json.dumps(ev)[:600]
        flush()
    except CheckError as exc:
        res["err"] = str(exc)
    except Exception:
        res["err"] = traceback.format_exc()
    return res


def schedule(tasks, cost, leaf):
    """Spread the tasks over the workers; tasks that share an elementary element stay together (in chunks)."""
    groups = {}
    for t in tasks:
        groups.setdefault(json.dumps(leaf(t)), []).append(t)
    chunks = []
    for g, ts in groups.items():
        base = leaf_cost(json.loads(g))
        cur, tot = [], base
        cap = max(4.0, 2 * base) if base else 0.5
        for t in ts:
            cur.append(t)
            tot += cost(t)
            if tot > cap:
                chunks.append((tot, cur))
                cur, tot = [], base
        if cur:
            chunks.append((tot, cur))
    chunks.sort(key=lambda x: -x[0])
    shards = [[] for _ in range(NPROC)]
    load = [0.0] * NPROC
    for c, ts in chunks:
        i = load.index(min(load))
        shards[i].extend(ts)
        load[i] += c
    return shards


def leaf_cost(t):
    """Rough seconds FIAT needs to build an elementary element."""
    if not t:
        return 0.0
    k = t["k"] + (2 if t["f"] == "KMV" else 0)
    if t["c"] == "tetrahedron":
        return [.05, .1, .4, 1.2, 3.2, 7, 18, 40, 60][min(k, 8)]
    if t["c"] == "triangle":
        return [.03, .05, .1, .25, .5, 1, 2, 4, 7, 12][min(k, 9)] * (3 if t["f"] in ("Arg", "Bell", "QArg") else 1)
    return 0.02


def known(prop):
    """The known findings of a property: list of (identifier of the event, clause)."""
    out = []
    try:
        for line in open(os.path.join(ROOT, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) id=(\S+) clause=(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def run(prop, driver, tasks, gen_stats, assumptions, extra=None, level="model_checking"):
    """Drive, judge, report; returns the exit code."""
    t0 = float(os.environ.get("VERIF_T0") or time.time())
    workdir = tempfile.mkdtemp(prefix="fiat-" + prop)
    mod = __import__(driver)
    shards = schedule(tasks, getattr(mod, "cost", lambda t: 0.05), getattr(mod, "leaf", lambda t: None))
    code = 0
    try:
        with mp.Pool(NPROC) as pool:
            results = pool.map(_worker, [(prop, driver, s, i, workdir, 0) for i, s in enumerate(shards)], chunksize=1)
        errs = [r["err"] for r in results if r["err"]]
        if errs:
            sys.stderr.write("check failed: " + "\n".join(errs)[:6000] + "\n")
            return 2
        kf = known(prop)
        viol, found = [], {}
        for r in results:
            for ev, why in r["bad"]:
                for clause in why:
                    hit = [k for k in kf if k[0] == ev["id"].replace(" ", "") and k[1] == clause]
                    if hit:
                        found.setdefault(hit[0], ev)
                    else:
                        viol.append((ev, clause))
        for k in sorted(found):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[0], k[1]))
        if viol:
            code = 1
            os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
            path = os.path.join(BUILD, "replay", "%s.json" % prop)
            with open(path, "w") as f:
                json.dump([{"clause": c, "event": ev} for ev, c in viol[:40]], f)
            for ev, c in viol[:200 if os.environ.get("VERIF_DEBUG") else 12]:
                print("  %s: %s %s" % (ev["id"], c, ev.get("what", "")))
            if len(viol) > 12 and not os.environ.get("VERIF_DEBUG"):
                print("  ... %d in all" % len(viol))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        kinds = {}
        for r in results:
            for k, n in r["kinds"].items():
                kinds[k] = kinds.get(k, 0) + n
        ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
              "coverage": {"states": gen_stats[1] + sum(r["distinct"] for r in results),
                           "transitions": gen_stats[0] + sum(r["states"] for r in results),
                           "traces_validated_against_impl": sum(r["events"] for r in results),
                           "scenarios": len(tasks), "events_by_kind": kinds,
                           "numbers_judged": sum(r["size"] for r in results),
                           "samples": [r["sample"] for r in results if r["sample"]][:3]},
              "wall_s": round(time.time() - t0, 2), "assumptions": assumptions, "violations": len(viol)}
        if extra:
            ev["coverage"].update(extra)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if os.environ.get("VERIF_DEBUG"):
            print("drive %.1f..%.1f judge %.1f..%.1f  size %d  wall %.1f" % (
                min(r["t"][0] for r in results), max(r["t"][0] for r in results),
                min(r["t"][1] for r in results), max(r["t"][1] for r in results),
                sum(r["size"] for r in results), time.time() - t0))
        if not any(r["events"] for r in results):
            sys.stderr.write("no events were observed\n")
            return 2
        print("%s: %d scenarios, %d events, %d violations, %.1f s" % (
            prop, len(tasks), sum(r["events"] for r in results), len(viol), time.time() - t0))
        return code
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
