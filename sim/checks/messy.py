"""C14: tiers with gaps, and boundaries that do not coincide, become one consistent grid."""
import json
import os
import warnings

from .. import disk, sched
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops
from .conc import EXC, THREAD_STUBS, run_threads

NAMES = [["Word", "Phone"], ["Word", "Phone"], ["Utt", "Wd", "Seg"], ["Utt", "Wd", "Seg"], ["IP", "Wrd", "Syl", "Ph"],
         ["Turn"]]
UNITS = [0.1, 1 / 16, 0.05, 1 / 3, 0.3, 1.0]
# what a history does besides the edits of every history
SAFE = {"re_relate": 3, "cleanup": 3, "shift": 2, "relabel": 2, "feature": 1}


def messy_group(r, depth, gaps, jit, unit, ticks, t0):
    """Levels of [start, end, label]; labels unique, a few blank."""
    n = [0]

    def lab(d):
        n[0] += 1
        return "" if r.random() < 0.08 else "%s%d" % ("pqrs"[d], n[0])
    while True:
        tree = gen._tree(r, depth, t0, r.choice([1, 2, 3, 4]), 1, r.choice([1, 2, 3]))
        if ticks is None or tree[-1][1] <= ticks:
            break
    if ticks is not None and r.random() < 0.7:       # otherwise the group ends earlier than the first
        gen._extend(tree, ticks)
    levels, cur = [], tree
    for d in range(depth):
        levels.append([[x[0] * unit, x[1] * unit, lab(d)] for x in cur])
        cur = [k for x in cur for k in x[3]]
    if jit:
        for d in range(1, depth):
            for a, b in zip(levels[d], levels[d][1:]):
                if r.random() < 0.5:
                    a[1] = b[0] = a[1] + r.choice([-1, 1]) * jit * unit * r.choice([1, 0.5, 0.25])
    if gaps:
        for d in range(depth):
            L = levels[d]
            for _ in range(r.choice([0, 1, 1, 2])):
                if len(L) < 2:
                    break
                lo, hi = (1, len(L) - 1) if jit else (0, len(L))
                if lo >= hi:
                    break
                i = r.randrange(lo, hi)
                if r.random() < 0.3:
                    i2 = min(hi, i + 2)
                else:
                    i2 = i + 1
                if i2 - i < len(L):
                    del L[i:i2]
    return levels, tree[-1][1]


def messy_spec(r, small=False):
    unit = r.choice(UNITS)
    t0 = r.choice([0, 0, 0, 5, 40000])
    mode = r.choice(["gaps", "jitter", "both"])
    jit = 0 if mode == "gaps" else r.choice([0.01, 0.1, 0.3])
    gaps = mode != "jitter"
    names = r.choice(NAMES)
    n = r.choice([1, 1, 2])
    hiers = [{"kind": "I", "names": names, "src": "wp" if names[0] == "Word" and r.random() < 0.6 else "custom"}]
    groups, ticks = [], None
    for gi in range(n):
        lv, ticks = messy_group(r, len(names), gaps, jit, unit, ticks, t0)
        groups.append({"h": 0, "tiers": ["%s - %s" % (gen.SPEAKERS[gi], x) for x in names], "levels": lv})
    if r.random() < 0.3:
        hiers.append({"kind": "P", "names": ["Tone"], "src": "custom"})
        groups.insert(r.randrange(n + 1), {"h": 1, "tiers": ["tones"], "points": [[[t0 * unit, "H"], [(t0 + 1) * unit, "L"]]]})
    s = {"hiers": hiers, "groups": groups, "jit": jit * unit, "gaps": gaps}
    s = gen.with_files(r, s)
    s["merge"] = False
    s.pop("mix", None)
    s["flat"] = s["flat"] and all("levels" in g for g in groups)
    return s


def fit_errors(levels, group, gaps, jit, every=None):
    """levels: the entries as they were; group: what the library made of them."""
    errs = []
    depth = len(levels)
    got = [[[float(x.start), float(x.end), x.label, x] for x in t] for t in group]
    eps = 1e-9
    lo = min(x[0] for L in every or levels for x in L)
    hi = max(x[1] for L in every or levels for x in L)
    for d in range(depth):
        want = [x[2] for x in levels[d] if x[2]]
        have = [x[2] for x in got[d] if x[2]]
        if want != have:
            errs.append("tier %d: the labels were %r and are %r" % (d, want, have))
            continue
        if any(abs(a[1] - b[0]) > eps for a, b in zip(got[d], got[d][1:])):
            errs.append("tier %d has gaps or overlaps: %r" % (d, [x[:3] for x in got[d]]))
        if any(x[1] - x[0] <= eps for x in got[d]):
            errs.append("tier %d has entries without duration: %r" % (d, [x[:3] for x in got[d]]))
        if abs(got[d][0][0] - lo) > eps or abs(got[d][-1][1] - hi) > eps:
            errs.append("tier %d covers %r to %r of %r to %r" % (d, got[d][0][0], got[d][-1][1], lo, hi))
        ws = [x for x in levels[d] if x[2]]
        hs = [x for x in got[d] if x[2]]
        for w, h in zip(ws, hs):
            if h[0] < w[0] - eps or h[1] > w[1] + eps:
                errs.append("%s %r was %r-%r and grew to %r-%r" % (d, w[2], w[0], w[1], h[0], h[1]))
            if not jit and (abs(h[0] - w[0]) > eps or abs(h[1] - w[1]) > eps):
                errs.append("%s %r was %r-%r and became %r-%r, with no boundary to fit" % (d, w[2], w[0], w[1], h[0], h[1]))
            if jit and not gaps and (h[0] - w[0] > 2 * depth * jit + eps or w[1] - h[1] > 2 * depth * jit + eps):
                errs.append("%s %r was %r-%r and shrank to %r-%r" % (d, w[2], w[0], w[1], h[0], h[1]))
        if not d or (d > 1 and gaps and jit):
            continue
        seen = [x[2] for x in levels[d - 1]]
        for w, h in zip(ws, hs):
            ov = sorted(((min(w[1], u[1]) - max(w[0], u[0]), u[2]) for u in levels[d - 1]), key=lambda x: -x[0])
            clear = 1e-6 if d == 1 else 2 * depth * jit + 1e-6
            if ov[0][0] <= clear or (len(ov) > 1 and ov[1][0] > ov[0][0] - clear) or not ov[0][1]:
                continue
            if seen.count(ov[0][1]) > 1:
                continue
            p = h[3].super_instance
            if p is None or p.label != ov[0][1]:
                errs.append("%r (%r-%r) overlaps %r most and is in %r" % (w[2], w[0], w[1], ov[0][1], p and p.label))
    return errs


def as_model(grid):
    out = []
    for c, g in zip(O.content(grid), grid):
        m = {"kind": c["kind"], "cls": list(c["cls"]), "tiers": list(c["tiers"]), "name": None}
        if c["kind"] == "I":
            def node(n):
                return [n[0], n[1], n[2], [node(k) for k in n[3]], dict(n[4])]
            m["tree"] = [node(n) for n in c["tree"]]
        else:
            m["pts"] = [[[p[0], p[1], dict(p[2])] for p in t] for t in c["pts"]]
        out.append(m)
    return out


def load(spec, classes, path):
    if spec["via"] != "groups":
        return W.load(spec, classes, path)
    from aligned_textgrid import AlignedTextGrid, SequenceTier, SequencePointTier, TierGroup, PointsGroup
    groups = []
    for g, o in zip(spec["groups"], spec["order"]):
        cs = classes.get(spec["hiers"][g["h"]])
        if "levels" in g:
            ts = [SequenceTier([cs[j](tuple(e)) for e in g["levels"][j]], cs[j]) for j in o]
            for t, j in zip(ts, o):
                t.name = g["tiers"][j]
            groups.append(TierGroup(ts))
        else:
            ts = [SequencePointTier([cs[j](tuple(e)) for e in g["points"][j]], cs[j]) for j in o]
            for t, j in zip(ts, o):
                t.name = g["tiers"][j]
            groups.append(PointsGroup(ts))
    grid = AlignedTextGrid(groups)
    grid.cleanup()              # only loading a TextGrid does that by itself
    return grid


def readout(g):
    return [O.content(g), O.tier_content(g), O.precedence_errors(g), O.hierarchy_errors(g)]


class C14(Check):
    ID = "C14"
    RUNS = (2800, 100000)
    STUBS = THREAD_STUBS + ["line-level interrupts: sys.settrace", "iteration order of sets: permuted by the seed"]
    RULE = ("a run = one seeded TextGrid whose tiers have gaps, boundaries that do not coincide, or both (1-2 groups, 1-4 "
            "levels), loaded in one of five ways, possibly after a load of it was interrupted or met a disk fault, then a "
            "history of nudged boundaries, entries taken out, re-relating, cleaning up, edits, refusals, interrupted reads "
            "and restarts; or 2-3 such loads interleaved line by line; the oracle is applied after the load and after every "
            "step; non-trivial = a gap or a mismatch was there and at least one step followed (or two switches)")

    def generate(self, r, size):
        if r.random() < 0.2:
            n = r.choice([2, 2, 3])
            sc = {"mean": r.choice([3, 15, 60, 250, 1000]), "first": r.randrange(n)}
            if r.random() < 0.3:
                sc["interrupts"] = {str(r.randrange(n)): [r.choice([30, 100, 300, 700, 1500]), r.choice(list(EXC))]}
            return {"specs": [messy_spec(r) for _ in range(n)], "sched": sc}
        steps = []
        for _ in range(r.choice([1, 2, 4, 8]) * (1 if not size else r.choice([1, 2]))):
            x = r.random()
            if x < 0.3:
                steps.append({"op": "nudge", "g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99),
                              "by": r.choice([-0.3, -0.2, -0.05, 0.05, 0.2, 0.3]), "n": r.choice([1, 1, 2])})
            elif x < 0.4:
                steps.append({"op": "take", "g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99)})
            elif x < 0.5:
                steps.append({"op": "reload", "fmt": r.choice(gen.FORMATS)})
            elif x < 0.57:
                steps.append({"op": "pickle"})
            elif x < 0.7:
                steps.append(D.gen_perturb(r))
            elif x < 0.85:
                steps.append(ops.random_op(r, SAFE))
            else:
                steps.append(ops.random_op(r))
        p = {"spec": messy_spec(r), "steps": steps, "permute_sets": r.random() < 0.5}
        if r.random() < 0.3:
            p["before"] = r.choice([{"line": r.choice([20, 100, 300, 600, 1000, 2000]), "exc": r.choice(list(EXC))},
                                    {"disk": {"at": "read", "k": r.randrange(900)}}])
        return p

    def shrinkers(self, plan):
        if "sched" in plan:
            out = [(lambda p: p["specs"], lambda p, v: dict(p, specs=v) if v else None)]
            if plan["sched"].get("script"):
                out.append(H.field("sched", "script"))
            return out
        out = [H.field("steps")] + H.spec_shrinkers(["spec"])[:1]
        for gi, g in enumerate(plan["spec"]["groups"]):
            for d in range(len(g.get("levels", []))):
                get, put = H.field("spec", "groups", gi, "levels", d)
                out.append((get, lambda p, v, put=put: put(p, v) if v and p["spec"]["gaps"] else None))
        return out

    def threads(self, plan, ctx):
        n = len(plan["specs"])
        cl = W.Classes()
        for s in plan["specs"]:
            for h in s["hiers"]:
                cl.get(h)

        def body(i, where):
            def go():
                s = plan["specs"][i]
                p = os.path.join(where, "p%d.TextGrid" % i)
                W.write_file(s, p)
                g = load(s, cl, p)
                out = [readout(g), self.fit(s, g)]
                for G in g:
                    G.re_relate()
                g.cleanup()
                out.append(readout(g))
                q = os.path.join(where, "q%d.TextGrid" % i)
                g.save_textgrid(q, "short_textgrid")
                out.append(disk.raw_bytes(q).decode("latin-1"))
                return out
            return go
        sc = plan["sched"]
        sub = dict(plan, sched=dict(sc, interrupts={k: v for k, v in sc.get("interrupts", {}).items() if int(k) < n},
                                    first=sc.get("first", 0) % n))
        s = run_threads(sub, [body(i, ctx.dir) for i in range(n)], ctx)
        ctx.nontrivial = len(s.switches) >= 2
        for i in range(n):
            if i in s.fired_tasks:
                continue
            if s.errors[i] is not None:
                raise Violation("messy tiers cannot be loaded, related again and saved", "%s: %s" % (
                    type(s.errors[i]).__name__, s.errors[i]))
            a, e, b, data = s.results[i]
            if e:
                raise Violation("messy tiers are not related as documented", first(e))
            if a[2] or a[3]:
                raise Violation("links of a grid made from messy tiers are wrong", first(a[2] + a[3]))
            d = O.same_tree(b, a, 1e-9)
            if d:
                raise Violation("relating again changes a grid made from messy tiers", d)
            ctx.state(a)

    def fit(self, spec, grid):
        e = []
        every = [L for g in spec["groups"] for L in g.get("levels", [])]
        for g, G in zip(spec["groups"], grid):
            if "levels" in g:
                e += fit_errors(g["levels"], G, spec["gaps"], spec["jit"], every)
        return e

    def execute(self, plan, ctx):
        warnings.simplefilter("ignore")
        D.start(ctx, plan)
        if "sched" in plan:
            return self.threads(plan, ctx)
        spec = plan["spec"]
        h = D.History(ctx, spec)
        p = h.path("in")
        W.write_file(spec, p)
        f = plan.get("before")
        if f and "disk" in f and spec["via"] in ("obj", "groups"):
            f = None
        if f:
            self.faulty(h, spec, p, f)
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                grid = load(spec, h.classes, p)
        except Exception as e:
            raise Violation("messy tiers cannot be loaded", "%s: %s" % (type(e).__name__, e))
        ctx.counts["load:" + spec["via"]] += 1
        ctx.event("load", spec["via"], spec["fmt"])
        e = self.fit(spec, grid)
        if e:
            raise Violation("messy tiers are not related as documented", first(e))
        off = max([0.0] + [self.mismatch(g["levels"]) for g in spec["groups"] if "levels" in g])
        if off > 1e-6 and not any("didn't exactly match" in str(w.message) for w in caught):
            raise Violation("boundaries were moved without a warning", "largest mismatch %r" % off)
        if off > 1e-6:
            ctx.counts["loads with mismatches"] += 1
        if spec["gaps"]:
            ctx.counts["loads with gaps"] += 1
        h.slot = W.Slot(spec, h.classes, grid, as_model(grid))
        self.judge(h, "load", ctx)
        done = 0
        for st in plan["steps"]:
            if st["op"] in ("nudge", "take"):
                ok = getattr(self, st["op"])(h, st, ctx)
            else:
                if st["op"] in ops.OPS and st["op"] not in SAFE and self.shortest(h) < 0.004:
                    continue
                try:
                    ok = h.step(st)
                except Stop as e:
                    if st["op"] != "reload":
                        raise
                    raise Violation("a saved grid comes back different", str(e))
                except D.OpFailed as e:
                    raise Violation("a step fails on a grid made from messy tiers: " + st["op"], str(e))
            if not ok:
                continue
            done += 1
            ctx.nontrivial = spec["gaps"] or off > 1e-6
            self.judge(h, st["op"], ctx)

    def faulty(self, h, spec, p, f):
        if "disk" in f:
            disk.arm(f["disk"])
            try:
                load(spec, h.classes, p)
            except Exception:
                pass
            finally:
                disk.disarm()
            h.ctx.fault("disk " + f["disk"]["at"])
            return
        _, err, n, fired = sched.interrupted(lambda: load(spec, h.classes, p), f["line"], EXC[f["exc"]])
        if fired:
            h.ctx.fault("interrupted load")

    @staticmethod
    def mismatch(levels):
        """How far entries of the second level stick out of the top entry they overlap most."""
        out = 0.0
        if len(levels) < 2:
            return out
        for x in levels[1]:
            best = max(min(x[1], u[1]) - max(x[0], u[0]) for u in levels[0])
            if best > 0:
                out = max(out, x[1] - x[0] - best)
        return out

    @staticmethod
    def shortest(h):
        return min([n[1] - n[0] for g in h.slot.m if g["kind"] == "I" for n in M.walk(g)] or [1.0])

    def judge(self, h, op, ctx):
        g = h.slot.grid
        d = h.agrees()
        if d:
            raise Violation("a grid made from messy tiers does not do what an edit promises: " + op, d)
        e = O.precedence_errors(g) + O.hierarchy_errors(g) + O.chain_errors(g)
        if e:
            raise Violation("links of a grid made from messy tiers are wrong: " + op, first(e))
        ctx.state(M.content(h.slot.m))

    def nudge(self, h, st, ctx):
        """A boundary of a lower tier is moved alone; relating again fits the tiers."""
        m, grid = h.slot.m, h.slot.grid
        gs = [i for i, g in enumerate(m) if g["kind"] == "I" and len(g["cls"]) > 1]
        if not gs:
            return False
        gi = gs[st["g"] % len(gs)]
        G = grid[gi]
        t = 1 + st["t"] % (len(G) - 1)
        T = G[t]
        if len(T) < 2:
            return False
        unit = min(x.end - x.start for tt in G for x in tt)
        if unit < 0.004:
            return False
        for k in range(st["n"]):
            i = (st["i"] + 2 * k) % (len(T) - 1)
            a, b = T[i], T[i + 1]
            x = a.end + st["by"] * unit
            a.end = x
            b.start = x
        levels = [[[float(x.start), float(x.end), x.label] for x in tt] for tt in G]
        ctx.event("nudge", gi, t, st["i"], st["by"])
        ctx.counts["step:nudge"] += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                G.re_relate()
                G.cleanup()
            except Exception as e:
                raise Violation("relating nudged tiers fails", "%s: %s" % (type(e).__name__, e))
        e = fit_errors(levels, grid[gi], False, abs(st["by"]) * unit)
        if e:
            raise Violation("nudged tiers are not related as documented", first(e))
        self.adopt(h, gi)
        return True

    def take(self, h, st, ctx):
        """An entry is taken out of its tier; cleaning up closes the gap."""
        m, grid = h.slot.m, h.slot.grid
        gs = [i for i, g in enumerate(m) if g["kind"] == "I"]
        gi = gs[st["g"] % len(gs)]
        G = grid[gi]
        t = st["t"] % len(G)
        T = G[t]
        if len(T) < 3:
            return False
        i = 1 + st["i"] % (len(T) - 2)
        levels = [[[float(x.start), float(x.end), x.label] for x in tt] for tt in G]
        del levels[t][i]
        ctx.event("take", gi, t, i)
        ctx.counts["step:take"] += 1
        try:
            T.pop(T[i])
            G.re_relate()
            G.cleanup()
        except Exception as e:
            raise Violation("taking out an entry and cleaning up fails", "%s: %s" % (type(e).__name__, e))
        e = fit_errors(levels, grid[gi], True, 0)
        if e:
            raise Violation("tiers with an entry taken out are not related as documented", first(e))
        self.adopt(h, gi)
        return True

    @staticmethod
    def adopt(h, gi):
        """The relation was judged by itself; go on from there."""
        new = as_model(h.slot.grid)[gi]
        new["name"] = h.slot.m[gi]["name"]
        others = [g for i, g in enumerate(as_model(h.slot.grid)) if i != gi]
        old = [g for i, g in enumerate(h.slot.m) if i != gi]
        d = O.same_tree(M.content(others), M.content(old), 1e-9)
        if d:
            raise Violation("relating one group changed another", d)
        if new["tiers"] != h.slot.m[gi]["tiers"] or new["cls"] != h.slot.m[gi]["cls"]:
            raise Violation("relating a group changed its names or classes", "%r" % new["tiers"])
        h.slot.m[gi] = new
