"""C15: PoLaR grids - pairings and values through histories, restarts and interleaved loads."""
import json
import math
import os

from .. import disk, sched, setorder
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops
from .conc import EXC, THREAD_STUBS, run_threads

POINTS = ["PrStr", "ToBI", "TurningPoints", "Levels", "Misc"]
RANGE_LABELS = ["75-230", "110-250", "80.5-180", "100-200", "60-310", "90-90", "75.37-202.1", "81.333-199.98", "90,5-200",
                "x-1"]
LEVEL_LABELS = ["1", "2", "3", "4", "5", "1?", "3?", "5?", "?2"]
TP_LABELS = ["0", "0", "0", "0,230", "0,95.5", "1,180", "0?,120", "?,99", "0?", "0,1,140", "0,-20"]
PR_LABELS = ["*", "*?", "]", "]?", "*", "]"]
FREE = ["H*", "L-L%", "?", "note", "", "x y", "!H*"]
LABELS_OF = {"PrStr": PR_LABELS, "ToBI": FREE, "TurningPoints": TP_LABELS, "Levels": LEVEL_LABELS, "Misc": FREE}


def polar_spec(r):
    unit = r.choice([0.01, 1 / 64, 0.05])
    tree = gen._tree(r, 2, 0, r.choice([1, 2, 3, 4]), unit, 3)
    end = max(tree[-1][1], 24)
    gen._extend(tree, end)
    gen._scale(tree, unit)
    n = r.choice([1, 2, 3, 4])
    cuts = sorted(r.sample(range(2, end - 1), n - 1))
    edges = [0] + cuts + [end]
    ranges = [[a * unit, b * unit, r.choice(RANGE_LABELS) if r.random() < 0.8 else ""] for a, b in zip(edges, edges[1:])]
    k = r.choice([1, 2, 3, 4, 6, 14])
    ticks = sorted(r.sample(range(0, end), min(k, end)))
    tps = [[t * unit, r.choice(TP_LABELS)] for t in ticks]
    lv = [t for t in ticks if r.random() < 0.8] or [ticks[0]]
    levels = [[t * unit, r.choice(LEVEL_LABELS)] for t in lv]
    names = ["TurningPoints", "Levels"] + [n for n in ("PrStr", "ToBI", "Misc") if r.random() < 0.6]
    r.shuffle(names)
    pts = []
    for nm in names:
        if nm == "TurningPoints":
            pts.append(tps)
        elif nm == "Levels":
            pts.append(levels)
        else:
            ts = sorted(r.sample(range(0, end), r.choice([1, 2, 3])))
            pts.append([[t * unit, r.choice(LABELS_OF[nm])] for t in ts])
    s = {"hiers": [{"kind": "I", "names": ["Word", "Phone"], "src": "wp"}, {"kind": "P", "names": names, "src": "polar"},
                   {"kind": "I", "names": ["Ranges"], "src": "polar"}],
         "groups": [{"h": 0, "tiers": ["Words", "Phones"], "tree": tree},
                    {"h": 1, "tiers": ["%s tier" % n for n in names], "points": pts},
                    {"h": 2, "tiers": ["Ranges"], "tree": [x + [[]] for x in ranges]}],
         "unit": unit}
    if r.random() < 0.2:                   # late in a long recording
        off = 3600.0
        for n in [x for g in s["groups"] if "tree" in g for x in M.walk(g)]:
            n[0] += off
            n[1] += off
        for p in [p for g in s["groups"] for t in g.get("points", []) for p in t]:
            p[0] += off
    r.shuffle(s["groups"])
    if r.random() < 0.2:
        s["groups"] = [g for g in s["groups"] if g["h"] != 0]
    s = gen.with_files(r, s, r.choice(["str", "str", "path", "obj"]))
    s["flat"] = False
    s["merge"] = False
    return s


def classes_for(spec):
    """The entry classes as a user of PolarGrid gives them."""
    from aligned_textgrid import Word, Phone
    from aligned_textgrid.polar import polar_classes as P
    out = []
    for g, o in zip(spec["groups"], spec["order"]):
        names = spec["hiers"][g["h"]]["names"]
        cs = [Word, Phone] if names == ["Word", "Phone"] else [getattr(P, n) for n in names]
        out.append([cs[j] for j in o])
    return out


def load(spec, path):
    from aligned_textgrid.polar.polar_grid import PolarGrid
    ec = classes_for(spec)
    if spec["via"] == "obj":
        from praatio.data_classes.textgrid import Textgrid
        from praatio.data_classes.interval_tier import IntervalTier
        from praatio.data_classes.point_tier import PointTier
        tg = Textgrid()
        for k, name, _, es in gen.tiers_of(spec):
            tg.addTier((IntervalTier if k == "I" else PointTier)(name, [tuple(e) for e in es]), reportingMode="silence")
        return PolarGrid(textgrid=tg, entry_classes=ec)
    if spec["via"] == "path":
        import pathlib
        path = pathlib.Path(path)
    return PolarGrid(textgrid_path=path, entry_classes=ec)


# ---- the oracle ------------------------------------------------------------

def close(a, b):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def want_range(label):
    try:
        lo, hi = [float(x) for x in label.split("-")]
    except ValueError:
        return float("nan"), float("nan")
    return lo, hi


def bands(label):
    lo, hi = want_range(label)
    return [lo + (hi - lo) * k / 5 for k in range(6)]


def group_of(m, cls):
    g = next(g for g in m if cls in g["cls"])
    return g, g["cls"].index(cls)


def points(m, cls):
    g, i = group_of(m, cls)
    return g["pts"][i]


def polar_errors(grid, m):
    """Every PoLaR value and pairing against the model (labels and times)."""
    errs = []
    for g, G in zip(m, grid):
        for c, t in zip(g["cls"], G):
            if c != "Syl" and getattr(grid, c, None) is not t:
                errs.append("grid.%s is not its tier" % c)
    for name, has in (("Word_Phone", "Word"), ("Points", "Levels"), ("RangesTier", "Ranges")):
        for g, G in zip(m, grid):
            if has in g["cls"] and (G.name != name or getattr(grid, name, None) is not G):
                errs.append("the group with %s is not grid.%s" % (has, name))
    if errs:
        return errs
    rg, _ = group_of(m, "Ranges")
    rs = rg["tree"]
    R, T, L = list(grid.Ranges), list(grid.TurningPoints), list(grid.Levels)
    if len(R) != len(rs) or len(T) != len(points(m, "TurningPoints")) or len(L) != len(points(m, "Levels")):
        return ["numbers of entries differ from the model"]
    for x, n in zip(R, rs):
        lo, hi = want_range(n[2])
        if not close(float(x.low), lo) or not close(float(x.high), hi) or len(x.range) != 2 \
           or not all(close(float(a), b) for a, b in zip(x.range, (lo, hi))):
            errs.append("range %r: low %r high %r" % (n[2], x.low, x.high))
        if len(x.bands) != 6 or not all(close(float(a), b) for a, b in zip(x.bands, bands(n[2]))):
            errs.append("range %r: bands %r" % (n[2], list(x.bands)))
    tp = points(m, "TurningPoints")
    for x, p in zip(L, points(m, "Levels")):
        who = "level %r at %r" % (p[1], p[0])
        lev = int(p[1].replace("?", ""))
        if x.level != lev or isinstance(x.level, str):
            errs.append("%s: level %r" % (who, x.level))
        if x.certainty != ("uncertain" if "?" in p[1] else "certain"):
            errs.append("%s: certainty %r" % (who, x.certainty))
        if x.ranges_tier is not grid.Ranges:
            errs.append("%s: ranges_tier is not the tier of the grid" % who)
        at = [i for i, n in enumerate(rs) if n[0] <= p[0] < n[1]]
        if x.range_interval is not (R[at[0]] if at else None):
            errs.append("%s: range_interval is %r" % (who, x.range_interval))
        elif at:
            want = bands(rs[at[0]][2])[lev - 1:lev + 1]
            if len(x.band) != 2 or not all(close(float(a), b) for a, b in zip(x.band, want)):
                errs.append("%s: band %r, expected %r" % (who, list(x.band), want))
        at = [i for i, q in enumerate(tp) if q[0] == p[0]]
        if x.turning_point is not (T[at[0]] if at else None):
            errs.append("%s: turning_point is %r" % (who, x.turning_point))
    lv = points(m, "Levels")
    for x, p in zip(T, tp):
        who = "turning point %r at %r" % (p[1], p[0])
        at = [i for i, q in enumerate(lv) if q[0] == p[0]]
        if x.level is not (L[at[0]] if at else None):
            errs.append("%s: level is %r" % (who, x.level))
        if x.certainty != ("uncertain" if "?" in p[1] else "certain"):
            errs.append("%s: certainty %r" % (who, x.certainty))
        if p[1] == "0":
            if x.override is not None:
                errs.append("%s: override %r" % (who, x.override))
        elif "," in p[1] and str(x.override) != p[1].split(",")[-1]:
            errs.append("%s: override %r" % (who, x.override))
    if any("PrStr" in g["cls"] for g in m):
        for x, p in zip(grid.PrStr, points(m, "PrStr")):
            if x.certainty != ("uncertain" if "?" in p[1] else "certain"):
                errs.append("PrStr %r: certainty %r" % (p[1], x.certainty))
            if x.status != ("prominence" if "*" in p[1] else "edge"):
                errs.append("PrStr %r: status %r" % (p[1], x.status))
    return errs


def readout(grid):
    """Everything PoLaR, as plain values."""
    def num(v):
        return [repr(float(x)) for x in v]
    def lab(x):
        return None if x is None else x.label
    return [[[x.label, num(x.range), num(x.bands), repr(float(x.low)), repr(float(x.high))] for x in grid.Ranges],
            [[x.label, x.level, x.certainty, repr(float(x.time)), lab(x.range_interval),
              None if x.range_interval is None else num(x.band), lab(x.turning_point),
              None if x.turning_point is None else x.turning_point.level is x] for x in grid.Levels],
            [[x.label, x.certainty, x.override if "," in x.label else None, lab(x.level)] for x in grid.TurningPoints]]


# ---- steps -------------------------------------------------------------------

def gen_step(r):
    k = r.choice(["label"] * 5 + ["shift", "pair", "pair", "fuse", "fuse", "bound", "bound", "relate", "pickle", "reload", "read",
                  "abandon", "interrupt", "faulty", "other", "word", "level", "unlevel", "gc", "refuse"])
    st = {"op": k, "a": r.random(), "b": r.random(), "c": r.random()}
    if k == "label":
        st["cls"] = r.choice(["Ranges", "Levels", "Levels", "TurningPoints", "PrStr"])
        st["new"] = {c: r.choice(RANGE_LABELS + [""] if c == "Ranges" else LABELS_OF[c])
                     for c in ("Ranges", "Levels", "TurningPoints", "PrStr")}[st["cls"]]
    if k == "shift":
        st["inc"] = r.choice([0.5, 1.0, 1 / 3, 0.01, 2.25])
    if k == "pair":
        st["lab"] = [r.choice(LEVEL_LABELS), r.choice(TP_LABELS)]
    if k == "reload":
        st["fmt"] = r.choice(gen.FORMATS)
    if k == "faulty":
        st["fault"] = r.choice([{"line": r.choice([20, 100, 300, 700, 1500, 3000]), "exc": r.choice(list(EXC))},
                                {"disk": {"at": "read", "after": r.choice([0, 10, 200, 600]), "errno": "EIO"}},
                                {"disk": {"at": "short", "n": r.choice([1, 7, 64])}}])
    if k in ("other",):
        st["spec"] = polar_spec(r)
    if k == "interrupt":
        st["at"] = r.choice([1, 5, 20, 60, 150])
    return st


class C15(Check):
    ID = "C15"
    RUNS = (3200, 80000)
    STUBS = THREAD_STUBS + ["line-level interrupts: sys.settrace", "iteration order of sets: permuted by the seed"]
    ASSUMES = ["PoLaR grids have Ranges, Levels and TurningPoints tiers with valid labels; a level and its turning point have "
               "the same time, other points are at least 10 ms apart; after an edit that moves range boundaries or adds points "
               "the caller relates the points again with the set_ calls"]
    RULE = ("a run = one seeded PoLaR TextGrid and a seeded history of relabelling, shifting, adding level/turning-point pairs, "
            "fusing and moving ranges, edits of words and phones, level changes, refused edits, interrupted reads, faulty loads, "
            "loads of other PoLaR grids and restarts from file or pickle, with all PoLaR values and pairings compared with labels "
            "and times after every step; or 2-3 threads that load and read PoLaR grids under a seeded line-level schedule, "
            "compared with each alone; non-trivial = at least two steps took effect, or two thread switches")

    def generate(self, r, size):
        if r.random() < 0.2:
            n = r.choice([2, 2, 3])
            specs = [polar_spec(r) for _ in range(n)]
            if r.random() < 0.3:
                specs[1] = json.loads(json.dumps(specs[0]))
            sc = {"mean": r.choice([3, 15, 60, 250, 1000]), "first": r.randrange(n)}
            if r.random() < 0.25:
                sc["interrupts"] = {str(r.randrange(n)): [r.choice([5, 30, 100, 300, 700, 1500]), r.choice(list(EXC))]}
            return {"specs": specs, "sched": sc, "permute_sets": False}
        n = r.choice([2, 4, 7, 12]) * (1 if not size else r.choice([1, 2, 4]))
        return {"spec": polar_spec(r), "steps": [gen_step(r) for _ in range(n)], "permute_sets": r.random() < 0.5}

    def shrinkers(self, plan):
        if "sched" in plan:
            out = [(lambda p: p["specs"], lambda p, v: dict(p, specs=v) if v else None)]
            if plan["sched"].get("script"):
                out.append(H.field("sched", "script"))
            return out
        return [H.field("steps")]

    # -- interleaved loads
    def threads(self, plan, ctx):
        n = len(plan["specs"])

        def body(i, where):
            def go():
                s = plan["specs"][i]
                p = os.path.join(where, "p%d.TextGrid" % i)
                W.write_file(s, p)
                g = load(s, p)
                out = [readout(g)]
                g.Levels[0].label = "4"
                g.Ranges[0].label = "50-100"
                out.append(readout(g))
                q = os.path.join(where, "q%d.TextGrid" % i)
                g.save_textgrid(q, "long_textgrid")
                out.append(disk.raw_bytes(q).decode("latin-1"))
                out.append([O.precedence_errors(g), O.hierarchy_errors(g)])
                return out
            return go
        alone = []
        for i in range(n):
            d = os.path.join(ctx.dir, "solo%d" % i)
            os.makedirs(d)
            alone.append(H.isolate(body(i, d)))
        sc = plan["sched"]
        sub = dict(plan, sched=dict(sc, interrupts={k: v for k, v in sc.get("interrupts", {}).items() if int(k) < n},
                                    first=sc.get("first", 0) % n))
        s = run_threads(sub, [body(i, ctx.dir) for i in range(n)], ctx)
        ctx.nontrivial = len(s.switches) >= 2
        for i in range(n):
            if i in s.fired_tasks:
                continue
            kind, want = alone[i]
            if kind != "ok":
                raise Violation("a PoLaR grid cannot be loaded, relabelled and saved", str(want)[:800])
            if s.errors[i] is not None:
                raise Violation("work on a PoLaR grid fails because of others", "%s: %s" % (type(s.errors[i]).__name__, s.errors[i]))
            d = O.same_tree(s.results[i], want, 0.0)
            if d:
                raise Violation("a PoLaR grid is affected by work on another", d)
            ctx.state(want)

    # -- histories
    def execute(self, plan, ctx):
        D.start(ctx, plan)
        if "sched" in plan:
            return self.threads(plan, ctx)
        self.plan, self.ctx, self.n, self.kept, self.levels = plan, ctx, 0, [], []
        p = os.path.join(ctx.dir, "in.TextGrid")
        W.write_file(plan["spec"], p)
        try:
            grid = load(plan["spec"], p)
        except Exception as e:
            raise Violation("a PoLaR TextGrid cannot be loaded", "%s: %s" % (type(e).__name__, e))
        self.spec = plan["spec"]
        m = M.from_spec(plan["spec"])
        self.judge(grid, m, "load")
        done = 0
        for st in plan["steps"]:
            try:
                out = getattr(self, "do_" + st["op"])(grid, m, st)
            except (Violation, Stop):
                raise
            except Exception as e:
                if not H.from_library(e):
                    raise
                raise Violation("a step failed on a PoLaR grid: " + st["op"], "%s: %s\n%r" % (type(e).__name__, e, st))
            if out is None:
                continue
            ctx.event(st["op"], {k: v for k, v in st.items() if k != "spec"})
            ctx.counts["step:" + st["op"]] += 1
            grid, m = out
            done += 1
            ctx.nontrivial = done >= 2
            self.judge(grid, m, st["op"])

    def judge(self, grid, m, op):
        d = O.same_tree(O.content(grid), M.content(m), 1e-9)
        if d:
            raise Violation("a PoLaR grid has other content than its history gives: " + op, d)
        M.adopt_times(m, O.content(grid))
        e = polar_errors(grid, m)
        if e:
            raise Violation("PoLaR values or pairings are wrong after " + op, first(e))
        e = O.precedence_errors(grid) + O.hierarchy_errors(grid)
        if e:
            raise Violation("links of a PoLaR grid are wrong after " + op, first(e))
        self.ctx.state([M.content(m), readout(grid)])

    def do_label(self, grid, m, st):
        if not any(st["cls"] in g["cls"] for g in m):
            return None
        tier = getattr(grid, st["cls"])
        i = int(st["a"] * len(tier))
        tier[i].label = st["new"]
        if st["cls"] == "Ranges":
            group_of(m, "Ranges")[0]["tree"][i][2] = st["new"]
        else:
            points(m, st["cls"])[i][1] = st["new"]
        return grid, m

    def do_shift(self, grid, m, st):
        grid.shift(st["inc"])
        for g in m:
            M.shift_group(g, st["inc"])
        return grid, m

    def do_pair(self, grid, m, st):
        """A new turning point with its level."""
        rs = group_of(m, "Ranges")[0]["tree"]
        lo, hi = rs[0][0], rs[-1][1]
        t = lo + (hi - lo) * (int(st["a"] * 200) + 0.5) / 200
        tp, lv = points(m, "TurningPoints"), points(m, "Levels")
        if any(abs(q[0] - t) < 0.004 for q in tp + lv) or any(abs(n[k] - t) < 1e-3 for n in rs for k in (0, 1)):
            return None
        a = type(grid.TurningPoints[0])((t, st["lab"][1]))
        b = type(grid.Levels[0])((t, st["lab"][0]))
        if st["b"] < 0.5:
            grid.TurningPoints.append(a)
            grid.Levels.append(b)
        else:
            grid.Levels.append(b)
            grid.TurningPoints.append(a)
        for pts, lab in ((tp, st["lab"][1]), (lv, st["lab"][0])):
            pts.append([t, lab, {}])
            pts.sort(key=lambda p: p[0])
        x = grid.Levels[[p[0] for p in lv].index(t)]
        x.set_ranges_tier(grid.Ranges)
        x.set_range_interval()
        if st["c"] < 0.6:
            x.set_turning_point(grid.TurningPoints)
        else:
            grid.TurningPoints[[p[0] for p in tp].index(t)].set_level(grid.Levels)
        return grid, m

    def relate(self, grid):
        for x in grid.Levels:
            x.set_range_interval()

    def do_relate(self, grid, m, st):
        """Relating again changes nothing."""
        for x in grid.Levels:
            x.set_ranges_tier(grid.Ranges)
            x.set_range_interval()
            x.set_turning_point(grid.TurningPoints)
        for x in grid.TurningPoints:
            x.set_level(grid.Levels)
        return grid, m

    def do_fuse(self, grid, m, st):
        g = group_of(m, "Ranges")[0]
        if len(g["tree"]) < 2:
            return None
        i = int(st["a"] * (len(g["tree"]) - 1))
        if st["b"] < 0.5:
            grid.Ranges[i].fuse_rightward(label_fun=lambda a, b: a)
            M.fuse(g, 0, i, 1, lambda a, b: a)
        else:
            grid.Ranges[i + 1].fuse_leftward(label_fun=lambda a, b: b)
            M.fuse(g, 0, i + 1, -1, lambda a, b: b)
        self.relate(grid)
        return grid, m

    def do_bound(self, grid, m, st):
        t = group_of(m, "Ranges")[0]["tree"]
        if len(t) < 2:
            return None
        i = int(st["a"] * (len(t) - 1))
        a, b = t[i], t[i + 1]
        new = a[0] + (b[1] - a[0]) * (0.2 + 0.6 * st["b"])
        if any(abs(p[0] - new) < 1e-3 for p in points(m, "Levels")):
            return None
        grid.Ranges[i].end = new
        grid.Ranges[i + 1].start = new
        a[1] = b[0] = new
        self.relate(grid)
        return grid, m

    def do_pickle(self, grid, m, st):
        import cloudpickle
        import pickle
        data = cloudpickle.dumps(grid)
        self.judge(grid, m, "pickling")
        D.restart_cloudpickle()
        self.ctx.fault("crash and restart from pickle")
        return pickle.loads(data), m

    def do_reload(self, grid, m, st):
        from aligned_textgrid.polar.polar_grid import PolarGrid
        from aligned_textgrid.polar import polar_classes as P
        from aligned_textgrid import Word, Phone, custom_classes
        if any(set(g["cls"]) & {"Word", "Phone", "Syl"} and g["cls"] != ["Word", "Phone"] for g in m):
            return None
        self.n += 1
        p = os.path.join(self.ctx.dir, "s%d.TextGrid" % self.n)
        grid.save_textgrid(p, st["fmt"])
        q = os.path.join(self.ctx.dir, "l%d.TextGrid" % self.n)
        disk.put(q, disk.raw_bytes(p))
        ec = [[Word, Phone] if g["cls"] == ["Word", "Phone"] else [getattr(P, c) for c in g["cls"]] for g in m]
        m = M.padded(m)
        for g in m:
            for ns in ([[n for n in M.walk(g)]] if g["kind"] == "I" else g["pts"]):
                for n in ns:
                    k = 2 if g["kind"] == "I" else 1
                    n[k] = n[k].strip()
        self.ctx.fault("crash and restart from file")
        return PolarGrid(textgrid_path=q, entry_classes=ec), m

    def do_read(self, grid, m, st):
        readout(grid)
        grid.return_textgrid()
        return grid, m

    def do_interrupt(self, grid, m, st):
        _, err, n, fired = sched.interrupted(lambda: readout(grid), st["at"], KeyboardInterrupt)
        if fired:
            self.ctx.fault("interrupted read")
        return grid, m

    def do_abandon(self, grid, m, st):
        its = [iter(grid.Levels), iter(grid.TurningPoints), iter(grid.Ranges)]
        for it in its:
            next(it, None)
        self.kept += its
        self.ctx.fault("abandoned iterator")
        return grid, m

    def do_gc(self, grid, m, st):
        import gc
        gc.collect()
        self.ctx.fault("gc")
        return grid, m

    def do_other(self, grid, m, st):
        """Another PoLaR grid with the same classes."""
        self.n += 1
        p = os.path.join(self.ctx.dir, "o%d.TextGrid" % self.n)
        W.write_file(st["spec"], p)
        g2 = load(st["spec"], p)
        m2 = M.from_spec(st["spec"])
        self.judge(g2, m2, "another load")
        g2.Ranges[0].label = "1-2"
        self.kept.append(g2)
        return grid, m

    def do_faulty(self, grid, m, st):
        """A load that meets a fault: it raises, or the grid is right."""
        self.n += 1
        s = self.spec
        p = os.path.join(self.ctx.dir, "f%d.TextGrid" % self.n)
        W.write_file(s, p)
        f = st["fault"]
        got = err = None
        if "disk" in f:
            if s["via"] == "obj":
                return None
            disk.arm(f["disk"])
            try:
                got = load(s, p)
            except Exception as e:
                err = e
            finally:
                disk.disarm()
            self.ctx.fault("disk " + f["disk"]["at"])
            if err is not None and f["disk"]["at"] == "short":
                raise Violation("a load with short reads fails", str(err))
        else:
            got, err, n, fired = sched.interrupted(lambda: load(s, p), f["line"], EXC[f["exc"]])
            if fired:
                self.ctx.fault("interrupted load")
        if err is None:
            self.judge(got, M.from_spec(s), "a faulty load that returned")
        return grid, m

    def do_refuse(self, grid, m, st):
        """Edits that must be refused."""
        k = int(st["a"] * 3)
        try:
            if k == 0:
                grid.Ranges[0].fuse_leftward()
            elif k == 1:
                grid.Levels.append(type(grid.Ranges[0])((0.0, 0.1, "x")))
            else:
                grid.TurningPoints.times = [0.0] * (len(grid.TurningPoints) + 1)
        except Exception:
            self.ctx.fault("refused edit")
            return grid, m
        raise Stop("refused edit was accepted")

    def do_word(self, grid, m, st):
        g = next((g for g in m if "Word" in g["cls"]), None)
        if g is None:
            return None
        t = int(st["a"] * len(g["cls"]))
        L = M.level(g, t)
        i = int(st["b"] * len(L))
        tier = grid[m.index(g)][t]
        sibs, k = M.locate(g, t, i)
        if st["c"] < 0.5 and k + 1 < len(sibs):
            tier[i].fuse_rightward(label_fun=lambda a, b: a + b)
            M.fuse(g, t, i, 1, lambda a, b: a + b)
        else:
            tier[i].label = "new"
            L[i][2] = "new"
        return grid, m

    def do_level(self, grid, m, st):
        g = next((g for g in m if "Word" in g["cls"]), None)
        if g is None or "Syl" in g["cls"] or "Phone" not in g["cls"]:
            return None
        timing = "below" if st["a"] < 0.5 else "above"
        grid.interleave_class("Syl", above="Phone", timing_from=timing, copy_labels=True)
        M.interleave(m, "Syl", "Phone", None, timing, True)
        return grid, m

    def do_unlevel(self, grid, m, st):
        if not any("Syl" in g["cls"] for g in m):
            return None
        grid.pop_class("Syl")
        M.pop_level(m, "Syl")
        return grid, m
