"""C04 independent grids, C05 shared readers: several simulated threads, line-level schedules."""
import json
import os

from .. import disk, sched, setorder
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
THREAD_STUBS = ["threads: simulated; every source line of the library is a possible switch point chosen by the seed",
                "locks: cooperative", "files: simulated disk"]


def run_threads(plan, tasks, ctx):
    sc = plan["sched"]
    s = sched.Scheduler(tasks, rng=W.rng("sched", plan["seed"]), mean=sc["mean"], script=sc.get("script"),
                        meet=sc.get("meet", 0),
                        interrupts={int(k): (v[0], EXC[v[1]]) for k, v in sc.get("interrupts", {}).items()})
    s.run(sc.get("first", 0))
    ctx.trails.add(s.trail)
    ctx.script = s.switches         # what a replay file holds
    ctx.event("schedule", len(s.switches), s.step, s.trail)
    ctx.counts["switches"] += len(s.switches)
    if s.meetings:
        ctx.counts["meetings at the same place"] += s.meetings
    ctx.counts["library lines under the scheduler"] += s.step
    if s.fired:
        ctx.fault("interrupt or out of memory at a line", s.fired)
    ctx.fault("thread switch", len(s.switches))
    for e in s.errors:
        if isinstance(e, sched.Deadlock):
            raise Violation("the threads block each other", str(e))
    return s


def gen_sched(r, n, means, hits):
    sc = {"mean": r.choice(means), "first": r.randrange(n)}
    x = r.random()
    if x < 0.45:
        sc["meet"] = r.choice([2, 5, 12, 40])
    if r.random() < 0.25:
        sc["interrupts"] = {str(r.randrange(n)): [r.choice(hits), r.choice(list(EXC))]}
    return sc


class C04(Check):
    ID = "C04"
    RUNS = (1500, 60000)
    STUBS = THREAD_STUBS
    RULE = ("a run = 2-3 simulated threads, each loading its own seeded TextGrid (sharing entry classes in most runs), "
            "editing, reading and saving it, under a seeded schedule that may switch threads at any source line of the "
            "library and may kill one of the threads in the middle of a call; each surviving thread's results must be "
            "exactly those it gets when it runs alone in a fresh process, the caller's classes must be unchanged, and a "
            "grid loaded afterwards must come out right; non-trivial = at least two switches inside library calls")

    def generate(self, r, size):
        n = r.choice([2, 2, 2, 3])
        shared = gen.spec(r, small=True)
        tasks = []
        for i in range(n):
            s = gen.spec(r, small=True) if r.random() < 0.4 else gen.spec(r, small=True, wp=True)
            if r.random() < 0.35:
                s = json.loads(json.dumps(shared))
            k = r.choice([1, 2, 3, 4]) * (1 if not size else r.choice([1, 2]))
            steps = D.gen_history(r, k, perturb=0.05, restart=0.08)
            if r.random() < 0.5:
                steps.append({"op": "pin", "fmt": r.choice(gen.FORMATS)})
            tasks.append({"spec": s, "steps": steps})
        if r.random() < 0.4:                  # the same work on different grids
            for t in tasks[1:]:
                t["steps"] = json.loads(json.dumps(tasks[0]["steps"]))
        sc = gen_sched(r, n, [3, 15, 60, 250, 1000], [5, 30, 100, 300, 700, 1500, 3000])
        return {"tasks": tasks, "sched": sc, "permute_sets": False, "late": gen.spec(r, small=True, wp=True)}

    def shrinkers(self, plan):
        out = []

        def get(p):
            return p["tasks"]

        def put(p, v):
            if not v:
                return None
            p["tasks"] = v
            return p
        out.append((get, put))
        for i in range(len(plan["tasks"])):
            out.append(H.field("tasks", i, "steps"))
        if plan["sched"].get("script"):
            out.append(H.field("sched", "script"))
        return out

    def task(self, plan, i, ctx, classes):
        t = plan["tasks"][i]

        def body():
            out = []
            h = D.History(ctx, t["spec"], classes, name="t%d" % i)
            try:
                h.load()
            except D.OpFailed as e:
                return [["load", "raised", type(e.exc).__name__]]
            out.append(["load", O.content(h.slot.grid)])
            for st in t["steps"]:
                if st["op"] == "pin":
                    p = h.path("pin")
                    try:
                        h.slot.grid.save_textgrid(p, st["fmt"])
                        out.append(["pin", disk.raw_bytes(p)])
                    except Exception as e:
                        out.append(["pin", "raised", type(e).__name__])
                    continue
                if st["op"] == "interrupt_read":      # uses its own tracer
                    continue
                try:
                    done = h.step(st)
                except (D.OpFailed, Stop) as e:
                    out.append([st["op"], "raised"])
                    break
                if done:
                    out.append([st["op"], O.content(h.slot.grid)])
            g = h.slot.grid
            out.append([O.precedence_errors(g), O.hierarchy_errors(g), O.tier_content(g),
                        [[c.__name__ for c in G.entry_classes] for G in g]])
            return out
        return body

    def prepare(self, plan, ctx):
        D.start(ctx, plan)
        cl = W.Classes()
        for t in plan["tasks"]:
            for h in t["spec"]["hiers"]:
                cl.get(h)
        for h in plan["late"]["hiers"]:
            cl.get(h)
        return cl

    def execute(self, plan, ctx):
        n = len(plan["tasks"])
        sc = plan["sched"]
        cl = self.prepare(plan, ctx)
        # alone, each in a process of its own; the scheduler's tracing is on there too
        alone = []
        for i in range(n):
            def solo(i=i):
                c2 = H.Ctx(os.path.join(ctx.dir, "solo%d" % i))
                os.makedirs(c2.dir)
                return self.task(plan, i, c2, cl)()
            alone.append(H.isolate(solo))
        snap = cl.snapshot()
        sub = dict(plan, sched=dict(sc, interrupts={k: v for k, v in sc.get("interrupts", {}).items() if int(k) < n},
                                    first=sc.get("first", 0) % n))
        s = run_threads(sub, [self.task(plan, i, ctx, cl) for i in range(n)], ctx)
        ctx.nontrivial = len(s.switches) >= 2
        for i in range(n):
            if i in s.fired_tasks:
                continue
            kind, want = alone[i]
            if kind != "ok":
                raise Stop("a thread fails alone: " + str(want)[:200])
            if s.errors[i] is not None:
                raise Violation("a thread fails because of the others", "thread %d: %s: %s" % (
                    i, type(s.errors[i]).__name__, s.errors[i]))
            d = O.same_tree(s.results[i], want, 0.0)
            if d:
                raise Violation("a grid is affected by work on another grid", "thread %d: %s" % (i, d))
            ctx.state([x for x in s.results[i] if x[0] != "pin"])
        if cl.snapshot() != snap:
            bad = [(a[0], b[2:]) for a, b in zip(snap, cl.snapshot()) if a != b]
            raise Violation("working on grids changed classes of the caller", repr(bad[:3]))
        # afterwards
        h = D.History(ctx, plan["late"], cl, name="late")
        try:
            h.load()
        except D.OpFailed as e:
            raise Violation("after the others, a load fails", str(e))
        d = h.agrees()
        if d:
            kind, val = H.isolate(lambda: self.late_alone(plan, ctx))
            if kind == "ok" and not val:
                raise Violation("after the others, a loaded grid is wrong", d)
            raise Stop("loaded grid differs from the model")

    def late_alone(self, plan, ctx):
        c2 = H.Ctx(os.path.join(ctx.dir, "late"))
        os.makedirs(c2.dir)
        return D.History(c2, plan["late"], None, name="late").load().agrees()


# ---- readers ----------------------------------------------------------------

def _e(x):
    return None if x is None else [x.label, getattr(x, "start", None), getattr(x, "end", None)]


def r_tiers(g, a):
    return [[_e(x) for x in t] for G in g for t in G]


def r_nested(g, a):
    """Nested iteration over the same interval."""
    out = []
    for G in g:
        if O.is_points(G):
            continue
        for t in G:
            for x in t:
                out.append([[p.label, q.label] for p in x for q in x])
    return out


def r_paths(g, a):
    return [[x.id, x.within_path, x.within_index, x.tier_index] for G in g for t in G for x in t]


def r_links(g, a):
    return [[_e(x.prev), _e(x.fol)] + ([] if O.is_points(G) else [_e(x.super_instance), [k.label for k in x.subset_list]])
            for G in g for t in G for x in t]


def r_tierwise(g, a):
    out = []
    for G in g:
        for t in G:
            for i, x in enumerate(t):
                if i + 1 < len(t):
                    out.append(_e(x.get_tierwise(1)))
    return out


def _f(x):
    return None if x is None else float(x)


def r_views(g, a):
    return [[list(t.labels), _f(t.xmin), _f(t.xmax), len(t), t.name, repr(t)] for G in g for t in G] + \
        [float(g.xmin), float(g.xmax), repr(g), [repr(G) for G in g]]


def r_arrays(g, a):
    out = []
    for G in g:
        for t in G:
            if O.is_points(G):
                out.append([float(v) for v in t.times])
            else:
                out.append([[float(v) for v in t.starts], [float(v) for v in t.ends]])
                out += [[[float(v) for v in x.sub_starts], [float(v) for v in x.sub_ends], list(x.sub_labels),
                         float(x.duration), len(x)] for x in t]
    return out


def r_at(g, a):
    return [[None if v is None else int(v) for v in G.get_intervals_at_time(a)] for G in g]


def r_textgrid(g, a):
    tg = g.return_textgrid()
    return [[t.name, [list(e) for e in t.entries]] for t in tg.tiers]


def r_df(g, a):
    from aligned_textgrid.outputs.to_dataframe import to_df
    df = to_df(g, with_subset=bool(int(a * 10) % 2))
    return [df.columns, df.rows()]


def r_contains(g, a):
    """`in`, index and lookups."""
    out = []
    for G in g:
        for t in G:
            for x in t:
                out.append([x in t, t.index(x)])
                if not O.is_points(G):
                    out.append([[k in x, x.index(k)] for k in x])
    return out


def r_names(g, a):
    return [[G.name, [c.__name__ for c in G.entry_classes], [t.name for t in G],
             [getattr(G, c.__name__).name for c in G.entry_classes]] for G in g] + [
        [None if g.get_class_by_name(c.__name__) is None else 1 for c in G.entry_classes] for G in g]


def r_return_tier(g, a):
    return [[list(e) for e in t.return_tier().entries] for G in g for t in G]


def r_valid(g, a):
    return [x.validate() for G in g if not O.is_points(G) for t in G for x in t]


def r_points(g, a):
    out = []
    tiers = [t for G in g if not O.is_points(G) for t in G]
    for G in g:
        if O.is_points(G):
            for t in G:
                out.append(_e(t.get_nearest_point(a)) if len(t) else t.get_nearest_point(a))
                for x in t:
                    out.append([x.get_interval_index_at_time(T) for T in tiers])
    return out


def r_pickle(g, a):
    import cloudpickle
    import pickle
    return O.content(pickle.loads(cloudpickle.dumps(g)))


def r_parts_df(g, a):
    """Data frames of groups, tiers and single entries."""
    from aligned_textgrid.outputs.to_dataframe import to_df
    out = []
    for i, G in enumerate(g):
        for x in [G, G[-1]] + [t[j] for t, j in ((G[0], len(G[0]) // 2), (G[-1], -1)) if len(t)]:
            df = to_df(x, with_subset=bool((int(a * 10) + i) % 2))
            out.append([df.columns, df.rows()])
    return out


def r_reprs(g, a):
    return [[repr(x), repr(x.prev), repr(x.fol)] for G in g for t in G for x in t] + [
        repr(t.sequence_list) for G in g for t in G]


def r_ends(g, a):
    """First and last entries, negative and list indices, slices, reversed iteration."""
    out = [[t.name for t in g[[0] * len(g)]], [G.name for G in reversed(g)], g.tier_names]
    for G in g:
        out.append([_e(x) for x in G[[-1] * len(G)]])
        for t in G:
            out.append([_e(t.first), _e(t.last), _e(t[-1]), [_e(x) for x in t[1:3]], [_e(x) for x in reversed(t)]])
            if not O.is_points(G):
                out.append([[_e(x.first), _e(x.last), _e(x[-1])] for x in t if len(x)])
    return out


def r_distances(g, a):
    out = []
    for G in g:
        if O.is_points(G):
            for t in G:
                for x in t:
                    out.append([x.fol_distance, x.prev_distance, float(x.distance_from(t[0]))])
                    out += [[_e(x.get_interval_at_point(T)), [float(v) for v in x.distance_from(T[0])]]
                            for H_ in g if not O.is_points(H_) for T in H_]
    return out


def r_abandoned(g, a):
    """Iterations that are started, kept and not finished."""
    out = []
    kept = []
    for G in g:
        for t in G:
            it = iter(t)
            out.append(_e(next(it)))
            kept.append(it)
            if not O.is_points(G) and len(t[0]):
                sub = iter(t[0])
                out.append(_e(next(sub)))
                kept.append(sub)
    out.append([len(list(t)) for G in g for t in G])
    for it in kept:
        out.append([_e(x) for x in it])
    return out


def r_scribble(g, a):
    """A reader that overwrites the arrays and lists it was given."""
    out = []

    def mine(x, keep):
        out.append(keep)
        try:
            if hasattr(x, "fill"):
                x.fill(-7.0)
            else:
                x.reverse()
                x.append(None)
        except (ValueError, TypeError, AttributeError):
            pass        # a read-only answer is fine

    for G in g:
        mine(G.entry_classes, [c.__name__ for c in G.entry_classes])
        v = G.tier_names
        mine(v, list(v))
        v = G.get_intervals_at_time(a)
        mine(v, [None if x is None else int(x) for x in v])
        for t in G:
            mine(t.labels, list(t.labels))
            v = t[0].within_path
            mine(v, list(v))
            if O.is_points(G):
                v = t.times
                mine(v, [float(x) for x in v])
                continue
            for v in (t.starts, t.ends):
                mine(v, [float(x) for x in v])
            for x in t:
                for v in (x.sub_starts, x.sub_ends):
                    mine(v, [float(y) for y in v])
                v = x.sub_labels
                mine(v, list(v))
    v = g.tier_names
    mine(v, [list(x) for x in v])
    tg = g.return_textgrid()
    out.append([[t.name, [list(e) for e in t.entries]] for t in tg.tiers])
    for name in list(tg.tierNames):
        tg.removeTier(name)
    return out


READS = {k[2:]: f for k, f in list(globals().items()) if k.startswith("r_")}


def jsonable(x):
    return json.loads(json.dumps(x, default=float))


class C05(Check):
    ID = "C05"
    RUNS = (2800, 60000)
    STUBS = THREAD_STUBS
    RULE = ("a run = one seeded TextGrid with a seeded history, then 2-3 simulated threads that only read it (22 kinds of "
            "reading: iteration, nested and abandoned iteration, links, paths, lookups, data frames, exports, saving, "
            "pickling, readers that overwrite the arrays they were given), under a "
            "seeded schedule that may switch at any source line and may kill a reader in the middle; every answer must be "
            "the one given to a reader that asks nothing else, alone in a fresh process, and content, identity and links must be unchanged; "
            "non-trivial = at least two switches inside library calls")

    def generate(self, r, size):
        n = r.choice([2, 2, 3])
        names = sorted(READS)
        tasks = []
        for _ in range(n):
            k = r.choice([1, 2, 3]) * (1 if not size else r.choice([1, 2]))
            t = [[r.choice(names), r.choice([0.0, 0.1, 0.3, 1.0, 2.5])] for _ in range(k)]
            if r.random() < 0.2:
                t.append(["save", r.choice(gen.FORMATS)])
            if r.random() < 0.1:
                t.insert(0, ["save_tier", r.randrange(5)])
            tasks.append(t)
        if r.random() < 0.3:
            tasks[1] = list(tasks[0])
        sc = gen_sched(r, n, [3, 10, 40, 150, 600], [3, 10, 30, 100, 300, 700])
        return {"unfit": O.gen_unfit(r) if r.random() < 0.25 else [],
                "spec": gen.spec(r, small=True, points=True if r.random() < 0.4 else None),
                "steps": D.gen_history(r, r.choice([0, 0, 1, 3]), perturb=0.05, restart=0.05), "tasks": tasks, "sched": sc,
                "permute_sets": False}

    def shrinkers(self, plan):
        out = [H.field("steps")]

        def get(p):
            return p["tasks"]

        def put(p, v):
            if not v:
                return None
            p["tasks"] = v
            return p
        out.append((get, put))
        for i in range(len(plan["tasks"])):
            out.append(H.field("tasks", i))
        if plan["sched"].get("script"):
            out.append(H.field("sched", "script"))
        return out + H.spec_shrinkers(["spec"])

    def reader(self, plan, i, grid, where):
        def body():
            out = []
            for name, arg in plan["tasks"][i]:
                out.append(self.read(name, arg, grid, os.path.join(where, "r%d.TextGrid" % i)))
            return out
        return body

    def read(self, name, arg, grid, p):
        if name == "save":
            grid.save_textgrid(p, arg)
        elif name == "save_tier":
            G = grid[arg % len(grid)]
            G[arg % len(G)].save_as_tg(p)
        else:
            return [name, jsonable(READS[name](grid, arg))]
        return [name, disk.raw_bytes(p).decode("latin-1")]

    def alone(self, plan, grid, where):
        """What each reader must get: each question asked in a process of its own."""
        known = {}
        out = []
        for t in plan["tasks"]:
            want = []
            for name, arg in t:
                if (name, arg) not in known:
                    known[name, arg] = H.isolate(lambda: self.read(name, arg, grid, os.path.join(where, "alone.TextGrid")))
                kind, val = known[name, arg]
                if kind != "ok":
                    want = None
                    out.append((kind, val))
                    break
                want.append(val)
            if want is not None:
                out.append(("ok", want))
        return out

    def execute(self, plan, ctx):
        D.start(ctx, plan)
        h = D.History(ctx, plan["spec"])
        try:
            h.load()
            for st in plan["steps"]:
                h.step(st)
        except D.OpFailed as e:
            raise Stop("operation failed: " + str(e))
        g = h.slot.grid
        O.unfit(g, plan["unfit"])           # a grid in the middle of being edited can be read as well
        n = len(plan["tasks"])
        sc = plan["sched"]
        alone = self.alone(plan, g, ctx.dir)

        def look():
            return [O.content(g), [[id(x) for x in t] for G in g for t in G], [id(t) for G in g for t in G],
                    [x.name for x in g], O.precedence_errors(g), O.hierarchy_errors(g)]
        before = H.isolate(look)[1]      # looking is reading too: do it elsewhere first
        sub = dict(plan, sched=dict(sc, interrupts={k: v for k, v in sc.get("interrupts", {}).items() if int(k) < n},
                                    first=sc.get("first", 0) % n))
        s = run_threads(sub, [self.reader(plan, i, g, ctx.dir) for i in range(n)], ctx)
        ctx.nontrivial = len(s.switches) >= 2
        for i in range(n):
            if i in s.fired_tasks:
                continue
            kind, want = alone[i]
            if kind != "ok":
                if s.errors[i] is None:
                    raise Violation("a reader fails or not depending on the others", str(want)[:300])
                continue
            if s.errors[i] is not None:
                raise Violation("a reader fails because of other readers", "reader %d %r: %s: %s" % (
                    i, plan["tasks"][i], type(s.errors[i]).__name__, s.errors[i]))
            d = O.same_tree(s.results[i], want, 0.0)
            if d:
                raise Violation("a reader gets a wrong answer because of other readers", "reader %d %r: %s" % (
                    i, plan["tasks"][i], d))
            ctx.counts["answers compared"] += len(want)
            ctx.state(want)
        after = look()
        d = O.same_tree(after, before, 0.0)
        if d:
            raise Violation("reading changed the grid", d)
        # and a reader that comes later
        for i in range(n):
            if alone[i][0] != "ok":
                continue
            try:
                got = self.reader(plan, i, g, ctx.dir)()
            except Exception as e:
                raise Violation("reading fails after other readers", "%r: %s: %s" % (plan["tasks"][i], type(e).__name__, e))
            d = O.same_tree(got, alone[i][1], 0.0)
            if d:
                raise Violation("reading gives another answer after other readers", "%r: %s" % (plan["tasks"][i], d))
