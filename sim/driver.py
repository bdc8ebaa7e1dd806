"""Histories: load a grid, then edits, refused edits, reads, crashes and restarts."""
import gc
import os
import sys

from . import disk, gen, model as M, observe as O, ops, refused, sched, setorder, world as W
from .harness import Stop, Violation

FMT = gen.FORMATS


class OpFailed(Exception):
    """An operation the library should have carried out raised."""

    def __init__(self, name, exc):
        super().__init__("%s raised %s: %s" % (name, type(exc).__name__, str(exc)[:200]))
        self.name = name
        self.exc = exc


def save_args(path, fmt, how):
    import pathlib
    p = pathlib.Path(path) if how == "path" else path
    return p, fmt


def restart_cloudpickle():
    """What a new process does not have: the tracker of classes already pickled."""
    import cloudpickle.cloudpickle as cp
    cp._DYNAMIC_CLASS_TRACKER_BY_CLASS.clear()
    cp._DYNAMIC_CLASS_TRACKER_BY_ID.clear()


def full_chains(m):
    """The hierarchies of a grid; a group may hold only the upper levels of one."""
    out = []
    for c in sorted({(g["kind"], tuple(g["cls"])) for g in m}, key=lambda c: -len(c[1])):
        if not any(k == c[0] and x[:len(c[1])] == c[1] for k, x in out):
            out.append(c)
    return out


def reload_spec(m, slot):
    """How to read a saved grid back: a nested list of entry classes."""
    from aligned_textgrid import custom_classes
    made, cl, chains = {}, {}, []
    for kind, names in full_chains(m):
        made[kind, names] = custom_classes(list(names), points=list(range(len(names))) if kind == "P" else [])
        if kind == "I":
            chains.append(list(names))
        for n, c in zip(names, made[kind, names]):
            cl[n] = c
    return [[cl[n] for n in g["cls"]] for g in m], cl, chains


def same_class_names(m):
    """Class names are unique per grid but for groups that share a hierarchy."""
    names = [n for _, c in full_chains(m) for n in c]
    return len(names) == len(set(names))


def strip_content(c):
    def node(n):
        return [n[0], n[1], n[2].strip(), [node(k) for k in n[3]]]
    out = []
    for g in c:
        d = dict(g)
        if "tree" in d:
            d["tree"] = [node(n) for n in d["tree"]]
        else:
            d["pts"] = [[[p[0], p[1].strip()] for p in t] for t in d["pts"]]
        out.append(d)
    return out


def saved_content(m):
    """What loading a saved file must give (labels stripped, blanks padded, features gone)."""
    return strip_content(M.content(M.padded(m), feats=False, names=False))


def names_ok(want, got):
    """Tier names survive; a name used twice gets a suffix."""
    flat = [n for g in want for n in g]
    fg = [n for g in got for n in g]
    if len(flat) != len(fg) or len(set(fg)) != len(fg):
        return False
    for n, k in zip(flat, fg):
        if flat.count(n) == 1:
            if k != n:
                return False
        elif not k.startswith(n):
            return False
    for n in set(flat):
        if n not in fg:
            return False
    return True


class History:
    """One grid and its model, driven step by step."""

    def __init__(self, ctx, spec, classes=None, name="a"):
        self.ctx = ctx
        self.classes = classes or W.Classes()
        self.spec = spec
        self.name = name
        self.slot = None
        self.kept = []           # abandoned iterators stay alive
        self.saves = 0

    # -- loading
    def path(self, tag):
        return os.path.join(self.ctx.dir, "%s-%s.TextGrid" % (self.name, tag))

    def load(self):
        p = self.path("in")
        W.write_file(self.spec, p)
        try:
            grid = W.load(self.spec, self.classes, p)
        except Exception as e:
            raise OpFailed("load", e)
        self.slot = W.Slot(self.spec, self.classes, grid)
        self.ctx.counts["load:" + self.spec["via"]] += 1
        return self

    def agrees(self, tol=1e-9):
        return O.same_tree(O.content(self.slot.grid), M.content(self.slot.m), tol)

    # -- one step; returns False if it does not apply now
    def step(self, st):
        k = st["op"]
        if k in ops.OPS:
            return self.edit(st)
        return getattr(self, "do_" + k)(st)

    def edit(self, st):
        s = self.slot
        c = ops.OPS[st["op"]]
        a = c.prep(s.m, st, s.info)
        if a is None:
            return False
        self.ctx.event(self.name, st["op"], a)
        self.ctx.counts["edit:" + st["op"]] += 1
        try:
            c.real(s.grid, a, s.info)
        except Exception as e:
            raise OpFailed(st["op"], e)
        c.model(s.m, a, s.info)
        return True

    # -- faults and perturbations that must not change the grid
    def do_refused(self, st):
        raised = refused.attempt(self, st)
        if raised is None:
            return False
        self.ctx.event(self.name, "refused", st["kind"])
        if not raised:
            raise Stop("refused edit was accepted: " + st["kind"])
        self.ctx.fault("refused:" + st["kind"])
        return True

    def do_undo_level(self, st):
        """Take out a level that was put in earlier."""
        s = self.slot
        if not any(st["name"] in g["cls"] for g in s.m):
            return False
        self.ctx.event(self.name, "undo_level", st["name"])
        try:
            s.grid.pop_class(st["name"])
        except Exception as e:
            raise OpFailed("pop_level", e)
        M.pop_level(s.m, st["name"])
        s.info.used.discard(st["name"])
        return True

    def do_gc(self, st):
        gc.collect()
        self.ctx.fault("gc")
        return True

    def do_abandon(self, st):
        """Iterators left in the middle."""
        g = self.slot.grid
        G = g[st["g"] % len(g)]
        T = G[st["t"] % len(G)]
        if not len(T):
            return None
        x = T[st["i"] % len(T)]
        its = [iter(g), iter(G), iter(T)]
        if not O.is_points(G):
            its.append(iter(x))
        for it in its:
            for _ in range(st.get("n", 1)):
                next(it, None)
        self.kept += its
        self.ctx.fault("abandoned iterator")
        return True

    def do_interrupt_read(self, st):
        """A read-only call is interrupted at some line of the library."""
        g = self.slot.grid
        fn = READS[st["read"] % len(READS)]
        _, err, n, fired = sched.interrupted(lambda: fn(g), st["at"], KeyboardInterrupt)
        if fired:
            self.ctx.fault("interrupted read")
        self.ctx.event(self.name, "interrupt_read", st["read"] % len(READS), st["at"], fired)
        return True

    def do_reload(self, st):
        """Save, crash, start again from the file."""
        s = self.slot
        if not same_class_names(s.m):
            return False
        p = self.path("ck%d" % self.saves)
        self.saves += 1
        self.ctx.event(self.name, "reload", st["fmt"])
        try:
            s.grid.save_textgrid(p, st["fmt"])
        except Exception as e:
            raise OpFailed("save", e)
        data = disk.raw_bytes(p)
        q = self.path("ck%dr" % self.saves)
        disk.put(q, data)
        ec, cl, chains = reload_spec(s.m, s)
        from aligned_textgrid import AlignedTextGrid
        try:
            grid = AlignedTextGrid(q, ec)
        except Exception as e:
            raise OpFailed("load", e)
        m = M.padded(s.m)

        def wipe(ns):
            for n in ns:
                n[2] = n[2].strip()
                n[4] = {}
                wipe(n[3])
        for i, g in enumerate(m):
            g["name"] = None
            if g["kind"] == "I":
                wipe(g["tree"])
            else:
                for t in g["pts"]:
                    for pt in t:
                        pt[1] = pt[1].strip()
                        pt[2] = {}
        got = O.content(grid)
        diff = O.same_tree([{k: v for k, v in g.items() if k != "tiers"} for g in got], M.content(m, names=False), 1e-9)
        if diff:
            raise Stop("reload differs: " + diff)
        for g, c in zip(m, got):
            g["tiers"] = list(c["tiers"])
        M.adopt_times(m, got)
        info = ops.Info(cl, chains, set(s.info.used) | set(cl))
        s.grid, s.m, s.info = grid, m, info
        self.ctx.fault("crash and restart from file")
        return True

    def do_pickle(self, st):
        import cloudpickle
        import pickle
        s = self.slot
        self.ctx.event(self.name, "pickle")
        try:
            data = cloudpickle.dumps(s.grid)
            restart_cloudpickle()
            grid = pickle.loads(data)
        except Exception as e:
            raise OpFailed("pickle", e)
        s.grid = grid
        s.info.pickled = True
        self.ctx.fault("crash and restart from pickle")
        return True


def _read_iter(g):
    return [[x.label for x in t] for G in g for t in G]


def _read_nested(g):
    return [[y.label for y in x] for G in g if not O.is_points(G) for t in G for x in t for _ in x]


def _read_paths(g):
    return [x.id for G in g for t in G for x in t]


def _read_tg(g):
    return len(g.return_textgrid().tiers)


def _read_df(g):
    from aligned_textgrid.outputs.to_dataframe import to_df
    return to_df(g).shape


def _read_views(g):
    return [(t.labels, t.xmin, t.xmax) for G in g for t in G]


def _read_at(g):
    return [G.get_intervals_at_time(0.3) for G in g]


READS = [_read_iter, _read_nested, _read_paths, _read_tg, _read_views, _read_at, _read_df]


def gen_perturb(r):
    k = r.choice(["gc", "abandon", "abandon", "interrupt_read", "interrupt_read", "refused", "refused"])
    if k == "gc":
        return {"op": "gc"}
    if k == "abandon":
        return {"op": "abandon", "g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "n": r.choice([1, 2])}
    if k == "interrupt_read":
        return {"op": "interrupt_read", "read": r.choice([0, 1, 2, 2, 3, 4, 5]), "at": r.choice([1, 3, 10, 30, 100, 250])}
    return refused.gen_step(r)


def gen_history(r, n, edits=ops.EDITS, perturb=0.15, restart=0.06):
    out = []
    for _ in range(n):
        x = r.random()
        if x < perturb:
            out.append(gen_perturb(r))
        elif x < perturb + restart:
            out.append({"op": "reload", "fmt": r.choice(FMT)} if r.random() < 0.5 else {"op": "pickle"})
        else:
            out.append(ops.random_op(r, edits))
    return out


def start(ctx, plan):
    """Common set-up of a run."""
    disk.mount(ctx.dir)
    setorder.use(W.rng("sets", plan["seed"]) if plan.get("permute_sets") else None)
