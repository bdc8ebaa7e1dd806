"""C16: generated entry classes - right and independent through any history and interleaving of calls."""
import json
import os

from .. import disk, sched
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops
from .conc import EXC, THREAD_STUBS, run_threads

POOL = ["Word", "Phone", "Syl", "Foot", "Utt", "Seg", "Turn", "Tone", "Mark", "Gesture", "X", "word_2", "Clause", "a", "Zed",
        "Onset", "Rime", "word", "PHONE"]


def gen_call(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, r.choice([6, 8, 11])])
    names = r.sample(POOL, n)
    pts = sorted(r.sample(range(n), r.choice([0, 0, 0, 1, 1, 2, n]) if n > 1 else r.choice([0, 0, 1]))) \
        if r.random() < 0.5 and n > 1 else ([0] if r.random() < 0.2 else [])
    pts = [p for p in pts if p < n]
    o = list(range(n))
    r.shuffle(o)
    ro = r.choice([None, None, o, [names[j] for j in o]])
    return {"op": "make", "names": names, "points": pts, "ro": ro, "kw": r.random() < 0.5,
            "as_str": n == 1 and r.random() < 0.5}


def gen_op(r):
    k = r.choice(["make", "make", "make", "clone", "hier", "hier", "use", "use", "load", "load", "inst", "cut", "bare", "refuse",
                  "relink", "mark"])
    if k == "make":
        return gen_call(r)
    st = {"op": k, "a": r.random(), "b": r.random()}
    if k == "cut":
        st.update(call=gen_call(r), at=r.choice([1, 3, 8, 15, 30, 60]), exc=r.choice(list(EXC)))
    if k == "load":
        st["n"] = r.randrange(1 << 30)
        st["steps"] = [r.choice(["interleave", "pop", "append", "pickle", "own"]) for _ in range(r.choice([0, 1, 2, 3]))]
    return st


class Set:
    """The classes of one call, in hierarchical order, with what they should be."""

    def __init__(self, names, points, classes, base=None):
        self.names, self.points, self.classes = names, points, classes
        self.chain = [c for i, c in enumerate(classes) if i not in points]
        self.marks = []


def errors(sets):
    from aligned_textgrid import SequenceInterval, SequencePoint, Word, Phone
    from aligned_textgrid.sequences.sequences import Top, Bottom
    errs, seen = [], {}
    for k, s in enumerate(sets):
        for i, (n, c) in enumerate(zip(s.names, s.classes)):
            who = "call %d class %s" % (k, n)
            if c.__name__ != n:
                errs.append("%s: named %s" % (who, c.__name__))
            if issubclass(c, SequencePoint) != (i in s.points) or issubclass(c, SequenceInterval) != (i not in s.points):
                errs.append("%s: of the wrong kind" % who)
            if id(c) in seen:
                errs.append("%s: the same class as %s" % (who, seen[id(c)]))
            seen[id(c)] = who
        for i, c in enumerate(s.chain):
            up, dn = c.superset_class, c.subset_class
            who = "call %d class %s" % (k, c.__name__)
            if (not issubclass(up, Top)) if i == 0 else up is not s.chain[i - 1]:
                errs.append("%s: superset class is %s" % (who, up.__name__))
            if (not issubclass(dn, Bottom)) if i == len(s.chain) - 1 else dn is not s.chain[i + 1]:
                errs.append("%s: subset class is %s" % (who, dn.__name__))
        if s.chain and s.chain[0].superset_class.subset_class is not s.chain[0]:
            errs.append("call %d: the superset class of %s has another subset class" % (k, s.chain[0].__name__))
        if s.chain and s.chain[-1].subset_class.superset_class is not s.chain[-1]:
            errs.append("call %d: the subset class of %s has another superset class" % (k, s.chain[-1].__name__))
        for c, v in s.marks:
            if c.__dict__.get("remark") != v and getattr(c, "remark", None) != v:
                errs.append("call %d: an attribute of %s is lost or changed" % (k, c.__name__))
    if not (issubclass(Word.superset_class, Top) and Word.subset_class is Phone and Phone.superset_class is Word
            and issubclass(Phone.subset_class, Bottom)):
        errs.append("Word and Phone have changed")
    if not (issubclass(SequenceInterval.superset_class, Top) and issubclass(SequenceInterval.subset_class, Bottom)):
        errs.append("SequenceInterval has changed")
    return errs


def make(st):
    """One generator call; the classes in hierarchical order."""
    from aligned_textgrid import custom_classes
    names, pts, ro = list(st["names"]), list(st["points"]), st["ro"] and list(st["ro"])
    args = json.dumps([names, pts, ro])
    if st["as_str"]:
        c = custom_classes(names[0], points=pts) if pts else custom_classes(names[0])
        return Set(names, pts, [c])
    if ro is None:
        got = custom_classes(names, points=pts) if pts else custom_classes(names)
        order = list(range(len(names)))
    else:
        got = custom_classes(class_list=names, return_order=ro, points=pts) if st["kw"] else custom_classes(names, ro, pts)
        order = [x if isinstance(x, int) else names.index(x) for x in ro]
    if json.dumps([names, pts, ro]) != args:
        raise Violation("a generator call changed its arguments", "%s -> %r" % (args, [names, pts, ro]))
    if len(got) != len(names):
        raise Violation("a generator call gave another number of classes", "%s: %d" % (args, len(got)))
    return Set(names, pts, [got[order.index(j)] for j in range(len(names))])


class Worker:
    """A program that makes and uses classes."""

    def __init__(self, where):
        self.sets, self.where, self.n = [], where, 0
        self.log = []

    def pick(self, x, ok=lambda s: True):
        c = [s for s in self.sets if ok(s)]
        return c[int(x * len(c))] if c else None

    def do(self, st):
        return getattr(self, "do_" + st["op"])(st)

    def do_make(self, st):
        self.sets.append(make(st))
        return True

    def do_bare(self, st):
        """No arguments worth speaking of: the defaults are not shared."""
        from aligned_textgrid import custom_classes
        if st["a"] < 0.5:
            c = custom_classes(class_list=["Solo"])
            self.sets.append(Set(["Solo"], [], list(c)))
        else:
            c = custom_classes(["Solo", "Duo"], points=[1])
            self.sets.append(Set(["Solo", "Duo"], [1], list(c)))
        return True

    def do_clone(self, st):
        from aligned_textgrid.custom_classes import clone_class
        s = self.pick(st["a"])
        if s is None:
            return False
        if not s.chain:
            c = clone_class(s.classes[0])
            self.sets.append(Set(s.names[:1], [0], [c]))
            return True
        top = clone_class(s.chain[0])
        out = [top]
        while len(out) < len(s.chain):
            out.append(out[-1].subset_class)
        new = Set([c.__name__ for c in s.chain], [], out)
        for c, v in s.marks:            # what the caller put on a class is on its clone, and is the clone's own
            x = out[s.chain.index(c)]
            new.marks.append((x, v))
            if st["b"] < 0.5 and getattr(x, "remark", None) == v:
                x.remark = v + 1
                new.marks[-1] = (x, v + 1)
        self.sets.append(new)
        return True

    def do_mark(self, st):
        s = self.pick(st["a"], lambda s: s.chain and not s.marks)
        if s is None:
            return False
        c = s.chain[int(st["b"] * len(s.chain))]
        c.remark = 10
        s.marks.append((c, 10))
        return True

    def do_relink(self, st):
        """The caller hangs one hierarchy below another, or cuts one in two."""
        from aligned_textgrid.sequences.sequences import Top, Bottom
        a = self.pick(st["a"], lambda s: s.chain and not s.points)
        b = self.pick(st["b"], lambda s: s.chain and not s.points)
        if a is None or b is None or a is b or set(a.names) & set(b.names) or len(a.names) + len(b.names) > 6:
            return False
        if st["a"] < st["b"]:
            a.chain[-1].set_subset_class(b.chain[0])
        else:
            b.chain[0].set_superset_class(a.chain[-1])
        new = Set([c.__name__ for c in a.chain + b.chain], [], a.chain + b.chain)
        new.marks = a.marks + b.marks
        self.sets = [s for s in self.sets if s is not a and s is not b] + [new]
        return True

    def do_hier(self, st):
        from aligned_textgrid.custom_classes import get_class_hierarchy
        s = self.pick(st["a"], lambda s: s.chain)
        if s is None:
            return False
        c = s.chain[int(st["b"] * len(s.chain))]
        got = get_class_hierarchy(c)
        if [id(x) for x in got] != [id(x) for x in s.chain]:
            raise Violation("the hierarchy of a class is not what was asked for", "%s: %r, expected %r" % (
                c.__name__, [getattr(x, "__name__", x) for x in got], [x.__name__ for x in s.chain]))
        got.append("mine")           # the caller owns the answer
        return True

    def do_inst(self, st):
        s = self.pick(st["a"])
        if s is None:
            return False
        i = int(st["b"] * len(s.classes))
        c = s.classes[i]
        x = c((0.5, "p")) if i in s.points else c((0.5, 1.0, "i"))
        if type(x) is not c or x.entry_class is not c or x.label != ("p" if i in s.points else "i"):
            raise Violation("an instance of a generated class is wrong", repr([type(x), x.entry_class, x.label]))
        if i not in s.points and (x.superset_class is not c.superset_class or x.subset_class is not c.subset_class):
            raise Violation("an instance of a generated class has another hierarchy than its class", c.__name__)
        return True

    def do_use(self, st):
        """A small group made by hand."""
        from aligned_textgrid import SequenceTier, TierGroup
        s = self.pick(st["a"], lambda s: len(s.chain) > 1)
        if s is None:
            return False
        tiers = [SequenceTier([c((0, 1, c.__name__)), c((1, 2, "z"))], c) for c in s.chain]
        g = TierGroup(tiers[::-1] if st["b"] < 0.5 else tiers)
        if [t.entry_class for t in g] != s.chain:
            raise Violation("a group of generated classes is not arranged by their hierarchy", repr([t.entry_class for t in g]))
        for u, v in zip(g, list(g)[1:]):
            for a, b in zip(u, v):
                if b.super_instance is not a:
                    raise Violation("entries of generated classes are not related", "%s %s" % (a.label, b.label))
        return True

    def do_load(self, st):
        """A grid with the classes of one call; what happens to the grid stays in the grid."""
        from aligned_textgrid import AlignedTextGrid, SequenceTier, TierGroup
        s = self.pick(st["a"], lambda s: s.chain and len(s.chain) < 7)
        if s is None:
            return False
        r = W.rng("classes", st["n"])
        names = [c.__name__ for c in s.chain]
        spec = {"hiers": [{"kind": "I", "names": names, "src": "custom"}],
                "groups": [{"h": 0, "tiers": ["t%d" % i for i in range(len(names))],
                            "tree": gen._tree(r, len(names), 0, 2, 1, 2 if len(names) < 5 else 1)}]}
        gen._scale(spec["groups"][0]["tree"], 0.25)
        gen.with_files(r, spec, "str")
        self.n += 1
        p = os.path.join(self.where, "c%d.TextGrid" % self.n)
        W.write_file(spec, p)
        o = spec["order"][0]
        g = AlignedTextGrid(p, [[s.chain[j] for j in o]])
        m = M.from_spec(spec)
        extra = False
        for k in st["steps"]:
            if k == "interleave" and not extra:
                g.interleave_class("Extra", below=names[0], timing_from="above")
                M.interleave(m, "Extra", None, names[0], "above", True)
                extra = True
            elif k == "pop" and extra:
                g.pop_class("Extra")
                M.pop_level(m, "Extra")
                extra = False
            elif k == "pickle":
                import cloudpickle
                import pickle
                g = pickle.loads(cloudpickle.dumps(g))
            elif k == "append" and not extra and len(m) < 3:
                tiers = [SequenceTier([c((0, 1, "new"))], c) for c in s.chain]
                g.append(TierGroup(tiers))
                kid = []
                for _ in names:
                    kid = [[0.0, 1.0, "new", kid, {}]]
                m.append({"kind": "I", "cls": list(names), "tiers": list(names), "name": None, "tree": kid})
        d = O.same_tree([{k: v for k, v in x.items() if k != "tiers"} for x in O.content(g)], M.content(m, names=False), 1e-9)
        if d:
            raise Violation("a grid of generated classes has the wrong content", d)
        return True

    def do_cut(self, st):
        """A call that is cut off leaves the others as they were."""
        if sched._current is not None:
            return False
        got, err, n, fired = sched.interrupted(lambda: make(st["call"]), st["at"], EXC[st["exc"]])
        if isinstance(err, Violation):
            raise err
        if err is None:
            self.sets.append(got)
        return "cut" if fired else True

    def do_refuse(self, st):
        """Calls that make no sense raise, and change no class."""
        from aligned_textgrid import custom_classes
        from aligned_textgrid.custom_classes import clone_class
        s = self.pick(st["b"], lambda s: len(s.chain) > 1)
        c = s and s.chain[int(st["a"] * len(s.chain))]
        calls = [lambda: custom_classes(["A", "B"], return_order=["A", "C"]),
                 lambda: custom_classes(["A", "B"], return_order=[0, 5])]
        if s:
            calls += [lambda: clone_class(s.chain[1]), lambda: c.set_superset_class(c), lambda: c.set_subset_class(c),
                      lambda: c.set_superset_class(int), lambda: c.set_subset_class(str)]
        try:
            calls[int(st["a"] * 1000) % len(calls)]()
        except Exception:
            return "refused"
        raise Violation("a call that makes no sense was accepted", "%d" % (int(st["a"] * 1000) % len(calls)))


class C16(Check):
    ID = "C16"
    RUNS = (5000, 100000)
    STUBS = THREAD_STUBS + ["line-level interrupts: sys.settrace"]
    ASSUMES = ["names of one call are distinct; return orders are permutations; clones are made of the top class"]
    RULE = ("a run = a seeded history of generator, clone and hierarchy calls, mixed with instances, groups and grids that use "
            "the classes (loads, level changes, appended groups, pickling), calls that are cut off at a source line and calls "
            "that are refused; all classes made so far are compared with what was asked for after every step; or 2-3 threads with "
            "such histories under a seeded line-level schedule; non-trivial = at least two calls of the generator")

    def generate(self, r, size):
        n = r.choice([3, 6, 10, 16]) * (1 if not size else r.choice([1, 2, 4]))
        if r.random() < 0.3:
            k = r.choice([2, 2, 3])
            sc = {"mean": r.choice([1, 3, 15, 60, 250]), "first": r.randrange(k)}
            if r.random() < 0.25:
                sc["interrupts"] = {str(r.randrange(k)): [r.choice([5, 20, 50, 100, 300]), r.choice(list(EXC))]}
            return {"tasks": [[gen_call(r)] + [gen_op(r) for _ in range(max(2, n // 2))] for _ in range(k)], "sched": sc,
                    "permute_sets": False}
        return {"steps": [gen_call(r)] + [gen_op(r) for _ in range(n)], "permute_sets": r.random() < 0.5}

    def shrinkers(self, plan):
        if "steps" in plan:
            return [H.field("steps")]
        out = [H.field("tasks", i) for i in range(len(plan["tasks"]))]
        if plan["sched"].get("script"):
            out.append(H.field("sched", "script"))
        return out

    def step(self, w, st, ctx):
        try:
            done = w.do(st)
        except (Violation, Stop):
            raise
        except Exception as e:
            if not H.from_library(e):
                raise
            raise Violation("a step with generated classes failed: " + st["op"], "%s: %s\n%r" % (type(e).__name__, e, st))
        if done:
            ctx.counts["step:" + st["op"]] += 1
        if done in ("cut", "refused"):
            ctx.fault("call cut off" if done == "cut" else "call refused")
        return done

    def execute(self, plan, ctx):
        D.start(ctx, plan)
        if "tasks" in plan:
            return self.threads(plan, ctx)
        w = Worker(ctx.dir)
        for st in plan["steps"]:
            if not self.step(w, st, ctx):
                continue
            ctx.event(st)
            self.judge(w.sets, st["op"])
            ctx.state([[s.names, s.points] for s in w.sets])
            ctx.nontrivial = len(w.sets) >= 2

    def judge(self, sets, op):
        e = errors(sets)
        if e:
            raise Violation("generated classes are wrong after " + op, first(e))

    def threads(self, plan, ctx):
        n = len(plan["tasks"])
        ws = []
        for i in range(n):
            d = os.path.join(ctx.dir, "w%d" % i)
            os.makedirs(d)
            ws.append(Worker(d))

        def body(i):
            def go():
                for st in plan["tasks"][i]:
                    self.step(ws[i], st, ctx)
                    e = errors(ws[i].sets)
                    if e:
                        raise Violation("generated classes are wrong after " + st["op"], first(e))
            return go
        sc = plan["sched"]
        sub = dict(plan, sched=dict(sc, interrupts={k: v for k, v in sc.get("interrupts", {}).items() if int(k) < n},
                                    first=sc.get("first", 0) % n))
        s = run_threads(sub, [body(i) for i in range(n)], ctx)
        for i in range(n):
            e = s.errors[i]
            if e is None or i in s.fired_tasks:
                continue
            if isinstance(e, (Violation, Stop)):
                raise e
            raise Violation("a thread that makes classes fails", "%s: %s" % (type(e).__name__, e))
        self.judge([x for w in ws for x in w.sets], "all threads")
        ctx.nontrivial = len(s.switches) >= 2
        ctx.state([[[x.names, x.points] for x in w.sets] for w in ws])
