"""Seeded search: runs, isolation, minimisation, replay files and evidence.

One run is one *plan* (plain JSON, made from one seed) executed in a freshly
forked process, so that no run sees what another left behind and a plan is one
exactly repeatable execution.
"""
import collections
import hashlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60          # seconds of processor time for one run (an ordinary run takes 0.05)


class Violation(Exception):
    """The property under check is broken."""

    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Stop(Exception):
    """The run cannot go on, and that is not this property's business."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Ctx:
    """What a run records: an event log (as a digest), counters and states."""

    def __init__(self, where):
        self.dir = where
        self.counts = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.trails = set()
        self._sha = hashlib.sha256()
        self.steps = 0
        self.log = []
        self.nontrivial = False
        self.script = None          # the schedule this run took, as [step, thread] pairs

    def event(self, *a):
        self.steps += 1
        s = json.dumps(a, default=str, ensure_ascii=True)
        self._sha.update(s.encode())
        if len(self.log) < 400:
            self.log.append(s[:400])

    def state(self, obj):
        s = json.dumps(obj, default=str, ensure_ascii=True).encode()
        h = hashlib.sha256(s).digest()
        self._sha.update(h)
        self.states.add(struct.unpack("<Q", h[:8])[0])

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def digest(self):
        return self._sha.hexdigest()[:24]


def isolate(fn, limit=CPU_LIMIT):
    """Run fn() in a forked process; ("ok", value) | ("exc", text) | ("died", why)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5))
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = ("ok", fn())
            except BaseException as e:      # noqa: B902
                out = ("exc", "%s\n%s" % (repr(e), traceback.format_exc()[-3000:]))
            data = pickle.dumps(out)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(st):
            s = os.WTERMSIG(st)
            return ("died", "no end within %d s of processor time" % limit if s in (signal.SIGXCPU, signal.SIGKILL)
                    else "killed by signal %d" % s)
        return ("died", "exit status %d" % st)
    return pickle.loads(data)


def from_library(e):
    """Did the exception pass through the code under test?"""
    return any(f.filename.startswith(env.PKG) for f in traceback.extract_tb(e.__traceback__))


UNUSABLE = (TypeError, AttributeError, KeyError, IndexError, ValueError, FileNotFoundError)


def _inside(check, plan, where):
    os.makedirs(where, exist_ok=True)
    ctx = Ctx(where)
    v = why = None
    try:
        check.execute(plan, ctx)
    except Violation as e:
        v = {"what": e.what, "detail": str(e.detail)[:4000]}
    except Stop as e:
        why = e.why
        ctx.counts["runs ended early: " + e.why.split(":")[0][:60]] += 1
    except Exception as e:
        lib = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(env.PKG)]
        if lib:
            v = {"what": "the library raised %s while its state was read" % type(e).__name__,
                 "detail": "%s\nin %s\n%s" % (e, lib[-1].name, traceback.format_exc()[-2500:])}
        elif isinstance(e, UNUSABLE):
            # the harness reads only documented parts: on a tree that keeps the property this never happens
            v = {"what": "what the library gave cannot be read (%s)" % type(e).__name__,
                 "detail": "%s\n%s" % (e, traceback.format_exc()[-2500:])}
        else:
            raise
    if v:
        ctx.event("violation", v["what"])
    return {"violation": v, "stopped": why, "digest": ctx.digest(), "counts": dict(ctx.counts),
            "faults": dict(ctx.faults), "states": list(ctx.states), "trails": list(ctx.trails), "steps": ctx.steps,
            "log": ctx.log if v else ctx.log[:40], "nontrivial": ctx.nontrivial,
            "script": ctx.script}


def run_plan(check, plan, scratch):
    """Execute a plan in its own process."""
    where = os.path.join(scratch, "r")
    shutil.rmtree(where, ignore_errors=True)
    kind, val = isolate(lambda: _inside(check, plan, where))
    shutil.rmtree(where, ignore_errors=True)
    if kind == "ok":
        return val
    out = {"violation": None, "stopped": None, "digest": "", "counts": {}, "faults": {}, "states": [], "trails": [],
           "steps": 0, "log": [], "nontrivial": False}
    if kind == "died":
        out["violation"] = {"what": "the library did not come back", "detail": val}
    else:
        out["error"] = val
    return out


# ---- search ----------------------------------------------------------------

def search(check, seed, runs, workers, scratch, wall, size):
    """Run `runs` seeded plans; the lowest-numbered violation wins."""
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack("<q", 1 << 60)
    t_end = time.time() + wall
    pids = []
    for k in range(workers):
        out = os.path.join(scratch, "w%d" % k)
        pid = os.fork()
        if pid == 0:
            try:
                _worker(check, seed, runs, workers, k, out, shared, t_end, size)
                os._exit(0)
            except BaseException:      # noqa: B902
                traceback.print_exc()
                os._exit(3)
        pids.append((pid, out))
    tot = {"runs": 0, "nontrivial": set(), "digests": set(), "states": set(), "trails": set(), "steps": 0,
           "counts": collections.Counter(), "faults": collections.Counter(), "found": None, "errors": [],
           "samples": [], "cut": False}
    bad = 0
    for pid, out in pids:
        _, st = os.waitpid(pid, 0)
        if st:
            bad += 1
            continue
        with open(out, "rb") as f:
            p = pickle.load(f)
        tot["runs"] += p["runs"]
        for k in ("nontrivial", "digests", "states", "trails"):
            tot[k] |= p[k]
        tot["steps"] += p["steps"]
        tot["counts"].update(p["counts"])
        tot["faults"].update(p["faults"])
        tot["errors"] += p["errors"]
        tot["samples"] += p["samples"]
        tot["cut"] |= p["cut"]
        f = p["found"]
        if f and (tot["found"] is None or f["index"] < tot["found"]["index"]):
            tot["found"] = f
    if bad:
        raise RuntimeError("%d workers failed" % bad)
    tot["samples"].sort(key=lambda s: s["index"])
    return tot


def _worker(check, seed, runs, workers, k, out, shared, t_end, size):
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    p = {"runs": 0, "nontrivial": set(), "digests": set(), "states": set(), "trails": set(), "steps": 0,
         "counts": collections.Counter(), "faults": collections.Counter(), "found": None, "errors": [],
         "samples": [], "cut": False}
    for i in range(k, runs, workers):
        if struct.unpack("<q", shared[:8])[0] < i:
            break
        if time.time() > t_end:
            p["cut"] = True
            break
        plan = make_plan(check, seed, i, size)
        res = run_plan(check, plan, scratch)
        p["runs"] += 1
        p["steps"] += res["steps"]
        p["counts"].update(res["counts"])
        p["faults"].update(res["faults"])
        p["states"].update(res["states"])
        p["trails"].update(res["trails"])
        p["digests"].add(res["digest"])
        if res["nontrivial"]:
            p["nontrivial"].add(res["digest"])
            if i < workers * 2 and len(p["samples"]) < 1:
                p["samples"].append({"index": i, "seed": plan["seed"], "digest": res["digest"], "log": res["log"][:12]})
        if res.get("error"):
            p["errors"].append({"index": i, "seed": plan["seed"], "error": res["error"]})
            if len(p["errors"]) > 3:
                break
        if res["violation"] and p["found"] is None:
            if res.get("script") is not None:
                plan["sched"]["script"] = res["script"]
            p["found"] = {"index": i, "plan": plan, "violation": res["violation"]}
            if i < struct.unpack("<q", shared[:8])[0]:
                shared[:8] = struct.pack("<q", i)
            break
    shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "wb") as f:
        pickle.dump(p, f)


def make_plan(check, seed, index, size):
    from .world import rng
    s = "%s/%s/%d" % (check.ID, seed, index)
    plan = check.generate(rng(s), size)
    plan["property"] = check.ID
    plan["seed"] = s
    return json.loads(json.dumps(plan))


# ---- minimisation ----------------------------------------------------------

def kind_of(v):
    """Two violations are the same finding if their headlines agree."""
    return v["what"] if v else None


def shrink(check, plan, violation, scratch, seconds=60):
    want = kind_of(violation)
    t_end = time.time() + seconds
    tried = [0]

    def bad(p):
        if time.time() > t_end:
            return False
        tried[0] += 1
        r = run_plan(check, p, scratch)
        return kind_of(r["violation"]) == want

    def ddmin(p, get, put):
        seq = get(p)
        n = 2
        while len(seq) >= 1 and time.time() < t_end:
            size = max(1, len(seq) // n)
            for i in range(0, len(seq), size):
                cand = put(json.loads(json.dumps(p)), seq[:i] + seq[i + size:])
                if cand is not None and bad(cand):
                    p = cand
                    seq = get(p)
                    n = max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(seq), n * 2)
        return p
    changed = True
    while changed and time.time() < t_end:
        before = json.dumps(plan)
        for get, put in check.shrinkers(plan):
            try:
                plan = ddmin(plan, get, put)
            except (KeyError, IndexError, TypeError):
                continue
        changed = json.dumps(plan) != before
    return plan, tried[0]


def field(*path):
    """(get, put) for a list at plan[path...]."""
    def get(p):
        for k in path:
            p = p[k]
        return p

    def put(p, v):
        q = p
        for k in path[:-1]:
            q = q[k]
        q[path[-1]] = v
        return p
    return get, put


def spec_shrinkers(path):
    """Drop groups of a spec, and top entries of its groups, keeping it well formed."""
    def at(p):
        for k in path:
            p = p[k]
        return p
    out = []

    def get_g(p):
        s = at(p)
        return list(zip(s["groups"], s["order"]))

    def put_g(p, v):
        if not v or not any("tree" in g or "levels" in g for g, _ in v):
            return None
        s = at(p)
        s["groups"] = [g for g, _ in v]
        s["order"] = [o for _, o in v]
        return p
    out.append((get_g, put_g))
    for gi in range(4):
        def get_t(p, gi=gi):
            s = at(p)
            if gi >= len(s["groups"]) or "tree" not in s["groups"][gi]:
                return []
            return s["groups"][gi]["tree"]

        def put_t(p, v, gi=gi):
            s = at(p)
            g = s["groups"][gi]
            old = g["tree"]
            if not v:
                return None
            # only cuts that leave a tight tree and the common end in place
            if len(s["groups"]) > 1 and (v[0][0] != old[0][0] or v[-1][1] != old[-1][1]):
                return None
            if any(a[1] != b[0] for a, b in zip(v, v[1:])):
                return None
            g["tree"] = v
            return p
        out.append((get_t, put_t))
    return out


# ---- known findings --------------------------------------------------------

def known_findings(prop):
    """[(headline, text)] recorded as known, not fixed."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    head, _, text = rest.partition(" :: ")
                    out.append((head, text))
    return out


# ---- the command -----------------------------------------------------------

def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true", help="report how often each kind fails (development)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    env.load()
    from . import disk
    disk.install()
    scratch = tempfile.mkdtemp(prefix="atgsim-")
    try:
        if a.replay:
            return replay(check, a.replay, scratch)
        size = {"quick": 0, "thorough": 1}[tier]
        runs = a.runs or check.RUNS[size]
        wall = a.wall or (300 if size == 0 else 3 * 3600)
        if a.keep_going:
            return survey(check, a.seed, runs, a.workers, scratch, size)
        tot = search(check, a.seed, runs, a.workers, scratch, wall, size)
        if tot["errors"] and not tot["found"]:
            print("CHECK ERROR in %d runs, first: %s\n%s" % (len(tot["errors"]), tot["errors"][0]["seed"],
                                                            tot["errors"][0]["error"]))
            return 2
        found, code = tot["found"], 0
        path = None
        if found:
            known = [t for h, t in known_findings(check.ID) if h == found["violation"]["what"]]
            plan, tried = shrink(check, found["plan"], found["violation"], scratch)
            plan, res, same = confirm(check, plan, found, scratch)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.ID, hashlib.sha256(
                json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump({"property": check.ID, "plan": plan, "violation": res["violation"], "digest": res["digest"],
                           "trace": res["log"], "found_at_run": found["index"], "shrink_attempts": tried}, f, indent=1)
            print("seed %s, run %d; minimised with %d attempts; replay reproduces: %s" % (
                found["plan"]["seed"], found["index"], tried, "yes" if same else "no"))
            print("broken: " + res["violation"]["what"])
            print(res["violation"]["detail"][:1500])
            for line in res["log"][:60]:
                print("  " + line[:240])
            print("VIOLATION property=%s replay=%s" % (check.ID, path))
            code = 1
            for t in known:
                print("(resembles a known finding: %s)" % t)
        if not a.no_evidence:
            evidence(check, a, tier, tot, time.time() - t0, code)
        print("%s %s: %d runs, %d distinct non-trivial, %d steps, %d states, faults %s, %.1f s -> %s" % (
            check.ID, tier, tot["runs"], len(tot["nontrivial"]), tot["steps"], len(tot["states"]),
            dict(sorted(tot["faults"].items())), time.time() - t0, "violated" if code else "held"))
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(check, plan, found, scratch):
    """Re-execute: the replay file must give the violation, identically, twice."""
    for p in (plan, found["plan"]):
        a = run_plan(check, p, scratch)
        b = run_plan(check, p, scratch)
        if a["violation"] and b["violation"]:
            return p, a, a["digest"] == b["digest"]
    return found["plan"], {"violation": found["violation"], "digest": "", "log": []}, False


def replay(check, path, scratch):
    with open(path) as f:
        rep = json.load(f)
    res = run_plan(check, rep["plan"], scratch)
    if res.get("error"):
        print("CHECK ERROR\n" + res["error"])
        return 2
    for line in res["log"]:
        print("  " + line[:300])
    if res["violation"]:
        same = res["digest"] == rep.get("digest") and res["violation"] == rep.get("violation")
        print("broken: " + res["violation"]["what"])
        print(res["violation"]["detail"][:3000])
        print("identical to the recorded execution: " + ("yes" if same else "no"))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    print("no violation")
    return 0


def survey(check, seed, runs, workers, scratch, size):
    """Development aid: run everything, count kinds."""
    pids = []
    for k in range(workers):
        out = os.path.join(scratch, "s%d" % k)
        pid = os.fork()
        if pid == 0:
            acc = []
            os.makedirs(out + ".d")
            try:
                for i in range(k, runs, workers):
                    plan = make_plan(check, seed, i, size)
                    r = run_plan(check, plan, out + ".d")
                    acc.append((i, r["violation"], r.get("error"), r["stopped"], r["nontrivial"], r["counts"], r["faults"]))
            except BaseException:      # noqa: B902
                traceback.print_exc()
            with open(out, "wb") as f:
                pickle.dump(acc, f)
            os._exit(0)
        pids.append((pid, out))
    res = []
    for pid, out in pids:
        os.waitpid(pid, 0)
        with open(out, "rb") as f:
            res += pickle.load(f)
    res.sort(key=lambda x: x[0])
    kinds, first, stops, counts, faults = collections.Counter(), {}, collections.Counter(), collections.Counter(), collections.Counter()
    for i, v, e, s, nt, c, fl in res:
        counts.update(c)
        faults.update(fl)
        if s:
            stops[s[:90]] += 1
        k = None
        if v:
            k = "V: " + v["what"]
        if e:
            k = "E: " + e.split("\n")[0][:120]
        if k:
            kinds[k] += 1
            first.setdefault(k, (i, (v or {}).get("detail") or e))
    print("runs", len(res), "nontrivial", sum(1 for x in res if x[4]))
    print("counts", dict(counts.most_common(60)))
    print("faults", dict(faults))
    print("stops", dict(stops.most_common(12)))
    for k, n in kinds.most_common(15):
        print("-----", n, k, "first run", first[k][0])
        print(first[k][1][-1800:])
    return 0


def evidence(check, a, tier, tot, wall, code):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(tot["nontrivial"]),
        "rule": check.RULE,
        "samples": tot["samples"][:3] or [{"note": "no non-trivial run among the first seeds"}],
        "seeds": "%s/%s/0 .. %d" % (check.ID, a.seed, max(0, tot["runs"] - 1)),
        "runs_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
        "simulated_time": "%d simulated events (the library has no clocks or timers: logical time only)" % tot["steps"],
        "faults_injected": dict(sorted(tot["faults"].items())),
        "operations": dict(sorted(tot["counts"].items())),
        "distinct_states": len(tot["states"]),
        "distinct_states_measure": "hash of the full observable content after a step",
        "distinct_interleavings": len(tot["trails"]),
        "distinct_interleavings_measure": "hash of the sequence (thread, source line) of a run, or of the operation order where there are no threads",
        "distinct_executions": len(tot["digests"]),
        "components_real": ["aligned_textgrid (all of /repo/src)", "praatio", "numpy", "polars", "cloudpickle"],
        "components_stub": check.STUBS,
        "cut_short_by_wall_clock": tot["cut"],
    }
    if len(tot["trails"]) == 0:
        cov.pop("distinct_interleavings")
        cov.pop("distinct_interleavings_measure")
    doc = {"property": check.ID, "tier": tier, "seed": int(a.seed) if str(a.seed).lstrip("-").isdigit() else 0,
           "level": check.LEVEL, "coverage": cov, "assumptions": check.ASSUMES, "wall_s": round(wall, 2),
           "violations": 1 if code else 0}
    with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
