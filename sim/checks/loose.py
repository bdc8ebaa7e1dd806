"""C17: lists, tiers and entries that are not in a grid."""
import os
import warnings

from .. import disk, sched
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops
from .conc import EXC, THREAD_STUBS, run_threads

EPS = 1e-9
LEVELS = ["A", "B", "C"]


class Rec:
    """What the check knows of one entry."""

    def __init__(self, obj, kind, lv, s, e, label):
        self.obj, self.kind, self.lv, self.s, self.e, self.label = obj, kind, lv, s, e, label
        self.kids, self.up, self.feat = [], None, {}

    def shift(self, by):
        self.s += by
        self.e += by
        for k in self.kids:
            k.shift(by)


class Box:
    """A sequence list or a tier, and what is in it in order."""

    def __init__(self, what, kind, lv, obj, recs):
        self.what, self.kind, self.lv, self.obj, self.recs = what, kind, lv, obj, recs
        self.linked = what == "tier"

    def insert(self, r):
        k = 0
        while k < len(self.recs) and self.recs[k].s <= r.s:
            k += 1
        self.recs.insert(k, r)

    def end(self):
        return max([r.e for r in self.recs], default=0)


def same(a, b):
    return a is not None and b is not None and abs(float(a) - float(b)) <= EPS


class Worker:
    """A program that puts lists, tiers and trees together."""

    def __init__(self, where, classes, name="w"):
        self.where, self.classes, self.name = where, classes, name
        self.n = self.files = 0
        self.boxes, self.trees = [], []
        self.t = 0.0

    # -- making things
    def entry(self, kind, lv, s, e):
        self.n += 1
        label = "%s%d" % (self.name, self.n)
        c = self.classes["P"] if kind == "P" else self.classes["I"][lv]
        obj = c((s, label)) if kind == "P" else c((s, e, label))
        return Rec(obj, kind, lv, s, s if kind == "P" else e, label)

    def free(self, kind, lv, st, taken=(), n=1):
        """New entries at times nothing in the box has."""
        out = []
        used = {round(r.s * 64) for r in taken}
        k = int(st["b"] * 40)
        d = st.get("w", 2)
        for j in range(n):
            while any((k + x) in used for x in range(-d + 1, d)):
                k += 1
            used.add(k)
            out.append(self.entry(kind, lv, k / 64, (k + d) / 64))
            k += 1 + int(st["c"] * 7) * (1 + j)
            k %= 97
        return out

    def deep(self, recs, st):
        """Give some of the entries children."""
        for j, r in enumerate(recs):
            if r.kind == "I" and r.lv < 2 and (j + int(st["a"] * 3)) % 3 == 0:
                mid = (r.s + r.e) / 2
                for s, e in ((r.s, mid), (mid, r.e)):
                    k = self.entry("I", r.lv + 1, s, e)
                    r.obj.append(k.obj)
                    k.up = r
                    r.kids.append(k)

    def pick(self, x, ok=lambda b: True):
        c = [b for b in self.boxes if ok(b)]
        return c[int(x * len(c))] if c else None

    # -- steps
    def do(self, st):
        if st["op"] in ("new", "tier") or not self.boxes:
            return self.do_new(st)
        return getattr(self, "do_" + st["op"])(st)

    def kind_of(self, st):
        return ("P", 0) if st["k"] == 3 else ("I", st["k"])

    def do_new(self, st):
        from aligned_textgrid import SequenceList, SequenceTier, SequencePointTier
        from praatio.data_classes.interval_tier import IntervalTier
        from praatio.data_classes.point_tier import PointTier
        if len(self.boxes) >= 5:
            self.boxes.pop(0)
        kind, lv = self.kind_of(st)
        recs = self.free(kind, lv, st, n=st["n"])
        if st["how"] % 2:
            self.deep(recs, st)
        c = self.classes["P"] if kind == "P" else self.classes["I"][lv]
        if st["op"] != "tier":
            obj = SequenceList(*[r.obj for r in recs])
            self.boxes.append(Box("list", kind, lv, obj, sorted(recs, key=lambda r: r.s)))
            return True
        if not recs and st["how"] > 1:
            recs = self.free(kind, lv, st, n=1)
        C = SequencePointTier if kind == "P" else SequenceTier
        if st["how"] < 2:
            obj = C([r.obj for r in recs], c)
        elif st["how"] < 4:
            obj = C(SequenceList(*[r.obj for r in recs]))
        else:
            recs = sorted(recs, key=lambda r: r.s)
            for r in recs:
                r.kids = []
            if kind == "P":
                obj = C(PointTier("made", [(r.s, r.label) for r in recs]), c)
            else:
                obj = C(IntervalTier("made", [(r.s, r.e, r.label) for r in recs]), c)
            for r, x in zip(recs, obj):
                r.obj = x
        self.boxes.append(Box("tier", kind, lv, obj, sorted(recs, key=lambda r: r.s)))
        return True

    do_tier = do_new

    def do_append(self, st):
        b = self.pick(st["a"], lambda b: len(b.recs) < 12)
        if b is None:
            return False
        r, = self.free(b.kind, b.lv, st, b.recs)
        if st["how"] % 2:
            self.deep([r], st)
        b.obj.append(r.obj)
        b.insert(r)
        if st["how"] == 4:
            b.obj.append(r.obj)          # once is enough
            return "twice"
        return True

    def do_again(self, st):
        b = self.pick(st["a"], lambda b: b.recs)
        if b is None:
            return False
        b.obj.append(b.recs[int(st["b"] * len(b.recs))].obj)
        return "twice"

    def do_plus(self, st):
        """list + entries gives a new list, and leaves the old one."""
        b = self.pick(st["a"], lambda b: b.what == "list" and len(b.recs) < 12)
        if b is None:
            return False
        from aligned_textgrid import SequenceList
        rs = self.free(b.kind, b.lv, st, b.recs, n=st["n"])
        have = [r.obj for r in b.recs]
        more = [r.obj for r in rs] + have[:int(st["c"] * 3)]
        new = b.obj + (more if st["how"] < 3 else SequenceList(*more))
        if [id(x) for x in b.obj] != [id(x) for x in have]:
            raise Violation("adding to a list changed the list itself", "%r" % b.obj)
        b.obj = new
        for r in rs:
            b.insert(r)
        return True

    def do_add_tiers(self, st):
        b = self.pick(st["a"], lambda b: b.what == "tier" and len(b.recs) < 9)
        if b is None:
            return False
        rs = self.free(b.kind, b.lv, st, b.recs, n=st["n"])
        other = type(b.obj)([r.obj for r in rs], b.obj.entry_class)
        b.obj = b.obj + other if st["how"] % 2 else other + b.obj
        for r in rs:
            b.insert(r)
        return True

    def do_concat(self, st):
        b = self.pick(st["a"], lambda b: len(b.recs) < 9)
        if b is None:
            return False
        rs = sorted(self.free(b.kind, b.lv, st, n=max(1, st["n"])), key=lambda r: r.s)
        if b.kind == "P" and rs[0].s <= 0 and b.recs:          # would fall on the last point
            return False
        if st["how"] % 2:
            self.deep(rs, st)
        if b.what == "tier":
            b.obj.concat(type(b.obj)([r.obj for r in rs], b.obj.entry_class))
        else:
            b.obj.concat([r.obj for r in rs])
        by = b.end()
        for r in rs:
            r.shift(by)
            b.insert(r)
        return True

    def do_late(self, st):
        """append(shift = True): the entry comes after the last one."""
        b = self.pick(st["a"], lambda b: b.what == "list" and 0 < len(b.recs) < 12 and
                      all(x.e <= y.s for x, y in zip(b.recs, b.recs[1:])))
        if b is None:
            return False
        r, = self.free(b.kind, b.lv, st)
        if b.kind == "P" and r.s <= 0:
            return False
        by = b.end()
        b.obj.append(r.obj, shift=True)
        r.shift(by)
        b.insert(r)
        return True

    def do_drop(self, st):
        b = self.pick(st["a"], lambda b: b.recs and not (b.what == "tier" and b.kind == "P"))
        if b is None:
            return False
        r = b.recs[int(st["b"] * len(b.recs))]
        if b.what == "tier":
            b.obj.pop(r.obj)
        elif st["how"] % 2:
            b.obj.remove(r.obj)
        else:
            b.obj.pop(r.obj)
        b.recs.remove(r)
        return True

    def do_times(self, st):
        """All times of a tier at once; order kept."""
        b = self.pick(st["a"], lambda b: b.what == "tier" and b.recs)
        if b is None:
            return False
        for r in b.recs:
            if r.kids:
                return False
        by = 1 / 128
        if b.kind == "P":
            b.obj.times = [r.s + by for r in b.recs]
            for r in b.recs:
                r.s = r.e = r.s + by
        else:
            b.obj.starts = [r.s + by for r in b.recs]
            b.obj.ends = [r.e + by for r in b.recs]
            for r in b.recs:
                r.s += by
                r.e += by
        return True

    def do_fill(self, st):
        """Cleaning up a tier closes its gaps."""
        b = self.pick(st["a"], lambda b: b.what == "tier" and b.kind == "I" and len(b.recs) > 1 and
                      all(x.e <= y.s + EPS for x, y in zip(b.recs, b.recs[1:])))
        if b is None:
            return False
        b.obj.cleanup()
        out = []
        have = list(b.obj)
        for x, y in zip(b.recs, b.recs[1:] + [None]):
            out.append(x)
            if y is not None and y.s - x.e > 1e-6:
                g = Rec(None, "I", b.lv, x.e, y.s, "")
                at = [h for h in have if same(h.start, x.e) and h.label == ""]
                if len(at) != 1:
                    raise Violation("cleaning up a tier did not fill a gap", "%r to %r: %r" % (x.e, y.s, [
                        (h.start, h.end, h.label) for h in have]))
                g.obj = at[0]
                out.append(g)
        b.recs = out
        return True

    def do_edit(self, st):
        b = self.pick(st["a"], lambda b: b.recs)
        if b is None:
            return False
        r = b.recs[int(st["b"] * len(b.recs))]
        if r.kids and st["how"] % 2:
            r = r.kids[int(st["c"] * len(r.kids))]
        if r.label == "":
            return False
        self.n += 1
        r.obj.label = r.label = "%s%d e" % (self.name, self.n)
        if st["how"] < 3 and r.kind == "I":
            r.obj.set_feature("note", self.n)
            r.feat["note"] = self.n
        return True

    def do_wrong(self, st):
        """Entries of another class are refused and nothing is changed."""
        from aligned_textgrid import SequenceList
        b = self.pick(st["a"], lambda b: b.recs)
        if b is None:
            return False
        lv = (b.lv + 1) % 3
        r = self.entry("I", lv, 0.25, 0.5)
        x = r.obj
        ok = b.recs[0].obj
        calls = [lambda: b.obj.append(x)]
        if b.what == "list":
            calls += [lambda: b.obj + [x], lambda: b.obj.concat([x]), lambda: b.obj.append(x, shift=True),
                      lambda: SequenceList(ok, x), lambda: b.obj.remove(self.entry(b.kind, b.lv, 9.0, 9.5).obj)]
        else:
            calls += [lambda: b.obj.concat(type(b.obj)([x], type(x)) if b.kind == "I" else SequencePair(x)),
                      lambda: b.obj + 3, lambda: b.obj.append("x"),
                      lambda: b.obj.pop(self.entry(b.kind, b.lv, 9.0, 9.5).obj) if b.kind == "I" else b.obj + b.obj[0]]
        call = calls[int(st["c"] * len(calls))]
        try:
            call()
        except Exception as e:
            if isinstance(e, (Violation, Stop)):
                raise
        else:
            raise Violation("a list or tier took an entry of another class", "%s of level %d, call %d" % (
                b.what, b.lv, int(st["c"] * len(calls))))
        if (x.start, x.end, x.label, type(x)) != (0.25, 0.5, r.label, self.classes["I"][lv]):
            raise Violation("a refused entry was changed", "%r %r %r" % (x, x.start, x.end))
        return "refused"

    def do_absent(self, st):
        b = self.pick(st["a"], lambda b: b.what == "list")
        if b is None:
            return False
        b.obj.pop(self.entry(b.kind, b.lv, 9.0, 9.5).obj)
        return True

    def do_cut(self, st):
        """A call on a list is cut off: nothing else gets lost; the order is settled by the next call."""
        b = self.pick(st["a"], lambda b: b.what == "list" and 0 < len(b.recs) < 11)
        if b is None:
            return False
        r, = self.free(b.kind, b.lv, st, b.recs)
        old = [x.obj for x in b.recs]
        gone = b.recs[int(st["c"] * len(b.recs))] if st["how"] > 2 and len(b.recs) > 1 else None
        call = (lambda: b.obj.append(r.obj)) if gone is None else (lambda: b.obj.remove(gone.obj))
        _, err, n, fired = sched.interrupted(call, 1 + int(st["b"] * 60), EXC[st["exc"]])
        if not fired and err is not None:
            raise err
        now = {id(x) for x in b.obj}
        may = r.obj if gone is None else gone.obj
        if now - {id(may)} != {id(x) for x in old} - {id(may)}:
            raise Violation("a call on a list that was cut off lost or made an entry", "%r" % b.obj)
        if not fired and (id(may) in now) != (gone is None):
            raise Violation("a call on a list did nothing", "%r" % b.obj)
        if gone is None and id(may) in now:
            b.insert(r)
        elif gone is not None and id(may) not in now:
            b.recs.remove(gone)
        if fired:                               # and the list still works
            z, = self.free(b.kind, b.lv, dict(st, b=st["c"]), b.recs)
            b.obj.append(z.obj)
            b.insert(z)
        return "cut" if fired else True

    def do_read(self, st):
        b = self.pick(st["a"], lambda b: b.recs)
        if b is None:
            return False

        def read():
            L = b.obj
            out = [list(L), L.starts if b.kind == "I" else None, L.labels, repr(L), L[0] in L]
            if b.what == "tier":
                out += [L.xmin, L.xmax, [x.tier_index for x in L]]
                if all(x.e <= y.s + EPS for x, y in zip(b.recs, b.recs[1:])):
                    out.append(L.return_tier())
                if b.kind == "I":
                    out.append(L.get_interval_at_time(0.5))
                else:
                    out.append(L.get_nearest_point(0.5))
            return out
        _, err, n, fired = sched.interrupted(read, 1 + int(st["b"] * 150), EXC[st["exc"]])
        if not fired and err is not None:
            raise err
        return "cut" if fired else True

    def do_save(self, st):
        b = self.pick(st["a"], lambda b: b.what == "tier" and b.recs and
                      all(x.e <= y.s + EPS for x, y in zip(b.recs, b.recs[1:])))
        if b is None:
            return False
        from praatio.textgrid import openTextgrid
        self.files += 1
        p = os.path.join(self.where, "%s%d.TextGrid" % (self.name, self.files))
        b.obj.save_as_tg(p)
        t = openTextgrid(p, includeEmptyIntervals=False)
        got = t.tiers[0].entries
        want = [r for r in b.recs if r.label]
        if len(got) != len(want) or any(not same(x[0], r.s) or x[-1] != r.label or (b.kind == "I" and not same(x[1], r.e))
                                        for x, r in zip(got, want)):
            raise Violation("a saved tier comes back different", "%r" % (got,))
        return True

    def do_pickle(self, st):
        b = self.pick(st["a"], lambda b: b.recs)
        if b is None:
            return False
        import cloudpickle
        import pickle
        new = pickle.loads(cloudpickle.dumps(b.obj))
        if len(new) != len(b.recs):
            raise Violation("a pickled list or tier has another number of entries", "%r" % new)

        def copy(r, x):
            c = Rec(x, r.kind, r.lv, r.s, r.e, r.label)
            c.feat = dict(r.feat)
            if r.kind == "I" and len(x) != len(r.kids):
                raise Violation("a pickled entry has another number of children", "%r" % x)
            for k, y in zip(r.kids, x if r.kind == "I" else []):
                z = copy(k, y)
                z.up = c
                c.kids.append(z)
            return c
        nb = Box(b.what, b.kind, b.lv, new, [copy(r, x) for r, x in zip(b.recs, new)])
        e = errors(nb)
        if e:
            raise Violation("a pickled list or tier comes back different", first(e))
        return True

    # -- one entry and what is below it
    def tree(self, x, ok=lambda r: True):
        c = []
        for b in self.boxes:
            for r in b.recs:
                for k in [r] + r.kids:
                    if k.kind == "I" and k.lv < 2 and ok(k):
                        c.append(k)
        return c[int(x * len(c))] if c else None

    def do_child(self, st):
        r = self.tree(st["a"], lambda r: r.label and len(r.kids) < 6)
        if r is None:
            return False
        d = (r.e - r.s) / 8
        if d < 1e-4:
            return False
        at = [j for j in range(8) if not any(k.s - EPS <= r.s + j * d < k.e - EPS for k in r.kids)]
        if not at:
            return False
        j = at[int(st["b"] * len(at))]
        k = self.entry("I", r.lv + 1, r.s + j * d, r.s + (j + 1) * d)
        ops.link(r.obj, [k.obj], ["append", "super", "append_sub", "add_sub", "list"][st["how"] % 5]) \
            if st["how"] % 5 < 3 else self.link(r, k, st)
        k.up = r
        r.kids.append(k)
        r.kids.sort(key=lambda x: x.s)
        return True

    @staticmethod
    def link(r, k, st):
        if st["how"] % 5 == 3:
            r.obj.subset_list += [k.obj]
        else:
            r.obj.set_subset_list(list(r.obj) + [k.obj])

    def do_move(self, st):
        """A child goes to another parent."""
        src = self.tree(st["a"], lambda r: r.kids)
        if src is None:
            return False
        dst = self.tree(st["b"], lambda r: r.lv == src.lv and r is not src and r.label)
        if dst is None:
            return False
        k = src.kids[int(st["c"] * len(src.kids))]
        if any(abs(k.s - x.s) < EPS for x in dst.kids):
            return False
        how = st["how"] % 4
        if how == 0:
            k.obj.set_super_instance(dst.obj)
        elif how == 1:
            dst.obj.append_subset_list(k.obj)
        elif how == 2:
            dst.obj.append(k.obj)
        else:
            dst.obj.subset_list += [k.obj]
        src.kids.remove(k)
        k.up = dst
        dst.kids.append(k)
        dst.kids.sort(key=lambda x: x.s)
        return True

    def do_leave(self, st):
        src = self.tree(st["a"], lambda r: r.kids)
        if src is None:
            return False
        k = src.kids[int(st["c"] * len(src.kids))]
        how = st["how"] % 4
        if how == 0:
            src.obj.remove_from_subset_list(k.obj)
        elif how == 1:
            k.obj.remove_superset()
        elif how == 2:
            src.obj.subset_list = [x for x in src.obj if x is not k.obj]
        else:
            src.obj.pop(k.obj)
        src.kids.remove(k)
        if k.obj.super_instance is not None or k.obj.within is not None:
            raise Violation("an entry taken out still has its parent", "%d" % how)
        return True

    def do_fuse(self, st):
        """Children are fused although there is no tier."""
        src = self.tree(st["a"], lambda r: len(r.kids) > 1)
        if src is None:
            return False
        i = int(st["c"] * (len(src.kids) - 1))
        a, b = src.kids[i], src.kids[i + 1]
        if st["how"] % 2:
            a.obj.fuse_rightwards()
            a.e = b.e
            keep = a
        else:
            b.obj.fuse_leftwards()
            b.s = a.s
            keep = b
        keep.label = a.label + " " + b.label
        for k in (b if keep is a else a).kids:
            k.up = keep
        keep.kids = a.kids + b.kids
        src.kids.remove(b if keep is a else a)
        return True

    def errors(self):
        out = []
        for b in self.boxes:
            out += errors(b)
        return out


class SequencePair:
    """Something that is like a tier but of intervals."""

    def __init__(self, x):
        self.entry_class, self.sequence_list = type(x), [x]


def errors(b):
    errs = []
    L, what = b.obj, "%s of %s" % (b.what, "points" if b.kind == "P" else LEVELS[b.lv])

    def E(m, *a):
        errs.append("%s: %s" % (what, m % a if a else m))
    got = list(L)
    if [id(x) for x in got] != [id(r.obj) for r in b.recs]:
        E("holds %r and should hold %r", [x.label for x in got], [r.label for r in b.recs])
        return errs
    n = len(got)
    if len(L) != n or any(L[i] is not x for i, x in enumerate(got)) or (n and L[-1] is not got[-1]):
        E("length or index disagree with iteration")
    if list(L.labels) != [r.label for r in b.recs]:
        E("labels are %r", L.labels)
    st = L.times if b.what == "tier" and b.kind == "P" else L.starts
    if len(st) != n or not all(same(x, r.s) for x, r in zip(st, b.recs)):
        E("starts are %r and should be %r", list(st), [r.s for r in b.recs])
    if not (b.what == "tier" and b.kind == "P"):
        en = L.ends
        if len(en) != n or not all(same(x, r.e) for x, r in zip(en, b.recs)):
            E("ends are %r and should be %r", list(en), [r.e for r in b.recs])
    if n and any(x not in L for x in got):
        E("does not contain its own entries")
    if n and L.entry_class is not type(got[0]):
        E("entry class is %r", L.entry_class)
    for i, (x, r) in enumerate(zip(got, b.recs)):
        t = x.time if b.kind == "P" else x.start
        if not same(t, r.s) or (b.kind == "I" and not same(x.end, r.e)) or x.label != r.label:
            E("entry %d is %r %r and should be %r %r", i, t, x.label, r.s, r.label)
        if any(getattr(x, k, None) != v for k, v in r.feat.items()):
            E("entry %d lost a feature", i)
        if b.what == "tier":
            if x.intier is not L or x.tier_index != i:
                E("entry %r does not know its tier or its place there", r.label)
            chain(x, got, i, E)
        if b.kind == "I":
            below(x, r, E)
    if b.what == "tier":
        want = "P" if b.kind == "P" else LEVELS[b.lv]
        if L.entry_class.__name__ != want:
            E("the tier is of %r", L.entry_class)
        if not n and (L.xmin is not None or L.xmax is not None or len(L.return_tier().entries)):
            E("an empty tier has times")
    if b.what == "tier" and n:
        if L.first is not got[0] or L.last is not got[-1]:
            E("first or last entry is wrong")
        if not same(L.xmin, b.recs[0].s) or not same(L.xmax, b.end()):
            E("extent is %r to %r", L.xmin, L.xmax)
        if all(x.e <= y.s + EPS for x, y in zip(b.recs, b.recs[1:])):
            t = L.return_tier().entries
            w = [(r.s, r.label) if b.kind == "P" else (r.s, r.e, r.label) for r in b.recs]
            if len(t) != n or any(x[-1] != y[-1] or not all(same(p, q) for p, q in zip(x[:-1], y[:-1])) for x, y in zip(t, w)):
                E("exported tier is %r", t)
    return errs


def chain(x, L, i, E):
    p, f = x.prev, x.fol
    if (i == 0) != (p is not None and p.label == "#") or (i and p is not L[i - 1]):
        E("the entry before %r is %r", x.label, p and p.label)
    if (i == len(L) - 1) != (f is not None and f.label == "#") or (i < len(L) - 1 and f is not L[i + 1]):
        E("the entry after %r is %r", x.label, f and f.label)


def below(x, r, E):
    kids = list(x)
    if [id(k) for k in kids] != [id(k.obj) for k in r.kids]:
        return E("children of %r are %r and should be %r", r.label, [k.label for k in kids], [k.label for k in r.kids])
    if list(x.sub_labels) != [k.label for k in r.kids] or not all(same(a, k.s) for a, k in zip(x.sub_starts, r.kids)):
        E("views on the children of %r are wrong", r.label)
    for i, (k, q) in enumerate(zip(kids, r.kids)):
        if not same(k.start, q.s) or not same(k.end, q.e) or k.label != q.label:
            E("child %r of %r is %r-%r %r", q.label, r.label, k.start, k.end, k.label)
        if k.super_instance is not x or k.within is not x or k.within_index != i:
            E("child %r does not know its parent %r", q.label, r.label)
        chain(k, kids, i, E)
        below(k, q, E)


OPS = {"new": 3, "tier": 3, "append": 5, "again": 1, "plus": 3, "add_tiers": 2, "concat": 3, "late": 1, "drop": 3, "times": 1,
       "fill": 2, "edit": 2, "wrong": 2, "absent": 1, "cut": 2, "read": 2, "save": 1, "pickle": 1, "child": 3, "move": 2,
       "leave": 2, "fuse": 2}


GROUP_EDITS = {k: v for k, v in ops.EDITS.items() if k not in ("interleave", "pop_level", "append_group", "rename")}


def gen_steps(r, n):
    names = [k for k, v in OPS.items() for _ in range(v)]
    out = []
    for i in range(n):
        out.append({"op": r.choice(names) if i > 1 else r.choice(["new", "tier"]), "a": r.random(), "b": r.random(),
                    "c": r.random(), "k": r.randrange(4), "n": r.choice([0, 1, 2, 3, 5]), "how": r.randrange(6),
                    "w": r.choice([1, 2, 3, 3, 9]), "exc": r.choice(list(EXC))})
    return out


class C17(Check):
    ID = "C17"
    RUNS = (3000, 100000)
    STUBS = THREAD_STUBS + ["line-level interrupts: sys.settrace"]
    ASSUMES = ["entries of one list or tier start at different times and have different labels; an entry is in one list, "
               "tier or parent at a time"]
    RULE = ("a run = a seeded history of calls on sequence lists, tiers and entries with children that are in no grid "
            "(made, added, concatenated, shifted, removed, refused, cut off at a line, fused, moved, filled up, saved, "
            "pickled), or 2-3 such histories with the same entry classes interleaved line by line; or histories of the edits "
            "that need no grid on groups that are in none; a model is compared after every step; non-trivial = at least three steps took effect (or two switches)")

    def generate(self, r, size):
        if r.random() < 0.3:
            n = r.choice([3, 6, 10, 16]) * (1 if not size else r.choice([1, 2, 4]))
            return {"spec": gen.spec(r, force_via="groups", partial=0),
                    "steps": D.gen_history(r, n, GROUP_EDITS, 0.1, 0.05), "permute_sets": r.random() < 0.5}
        if r.random() < 0.2:
            n = r.choice([2, 2, 3])
            sc = {"mean": r.choice([3, 15, 60, 250]), "first": r.randrange(n)}
            if r.random() < 0.3:
                sc["interrupts"] = {str(r.randrange(n)): [r.choice([30, 100, 300, 700]), r.choice(list(EXC))]}
            return {"tasks": [[s for s in gen_steps(r, r.choice([3, 6, 10])) if s["op"] not in ("cut", "read")]
                              for _ in range(n)], "sched": sc}
        return {"steps": gen_steps(r, r.choice([4, 8, 14, 24]) * (1 if not size else r.choice([1, 2, 4]))),
                "permute_sets": r.random() < 0.5}

    def shrinkers(self, plan):
        if "spec" in plan:
            return [H.field("steps")] + H.spec_shrinkers(["spec"])
        if "steps" in plan:
            return [H.field("steps")]
        out = [H.field("tasks", i) for i in range(len(plan["tasks"]))]
        if plan["sched"].get("script"):
            out.append(H.field("sched", "script"))
        return out

    @staticmethod
    def classes(plan):
        from aligned_textgrid import custom_classes
        got = custom_classes(LEVELS + ["P"], points=[3])
        return {"I": got[:3], "P": got[3]}

    def step(self, w, st, ctx):
        try:
            done = w.do(st)
        except (Violation, Stop):
            raise
        except Exception as e:
            if not H.from_library(e):
                raise
            raise Violation("a call on something that is in no grid failed: " + st["op"], "%s: %s\n%r" % (
                type(e).__name__, e, st))
        if done:
            ctx.counts["step:" + st["op"]] += 1
        if done in ("cut", "refused", "twice"):
            ctx.fault({"cut": "call cut off", "refused": "call refused", "twice": "duplicate delivery"}[done])
        return done

    def execute(self, plan, ctx):
        warnings.simplefilter("ignore")
        D.start(ctx, plan)
        if "spec" in plan:
            return self.groups(plan, ctx)
        if "tasks" in plan:
            return self.threads(plan, ctx)
        w = Worker(ctx.dir, self.classes(plan))
        done = 0
        for st in plan["steps"]:
            if not self.step(w, st, ctx):
                continue
            done += 1
            ctx.event(st)
            self.judge(w, st["op"])
            ctx.state([[b.what, b.kind, b.lv, [[r.s, r.e, r.label, len(r.kids)] for r in b.recs]] for b in w.boxes])
        ctx.nontrivial = done >= 3

    def groups(self, plan, ctx):
        """The edits that need no grid, on groups that are in none."""
        h = D.History(ctx, plan["spec"])
        s = W.Slot(plan["spec"], h.classes, W.loose(plan["spec"], h.classes))
        h.slot = s
        self.judge_groups(s, "making them")
        done = 0
        for st in plan["steps"]:
            if st["op"] in ops.OPS and st["op"] not in GROUP_EDITS or st["op"] in ("refused", "reload", "undo_level", "interrupt_read"):
                continue
            if st.get("lvl") == "grid" or st["op"] == "shift" and st["g"] < 0:
                continue
            if st["op"] == "blank_out":
                st = dict(st, how="group", i=st["i"] | 1)
            if st["op"] == "append_tier" and any(c in ("SequencePoint", "SequenceInterval") for g in s.m for c in g["cls"]):
                continue                    # every class is one of these
            try:
                if not h.step(st):
                    continue
            except D.OpFailed as e:
                raise Violation("an edit of a group that is in no grid failed: " + e.name, "%s\n%r" % (e, st))
            done += 1
            ctx.counts["group step:" + st["op"]] += 1
            self.judge_groups(s, st["op"])
            ctx.state(O.content(s.grid))
        ctx.nontrivial = done >= 2

    @staticmethod
    def judge_groups(s, op):
        d = O.same_tree(O.content(s.grid), M.content(s.m), 1e-9)
        if d:
            raise Violation("groups that are in no grid are not as they should be after " + op, d)
        e = O.precedence_errors(s.grid) or O.hierarchy_errors(s.grid)
        if e:
            raise Violation("links in a group that is in no grid are wrong after " + op, first(e))
        for g, G in zip(s.m, s.grid):
            lo, hi = M.gbounds(g)
            if not (lo is None and G.xmin is None) and not (same(G.xmin, lo) and same(G.xmax, hi)):
                raise Violation("a group that is in no grid has wrong bounds after " + op, "%r %r" % (G.xmin, G.xmax))
            if lo is None:
                continue
            for t in (lo, (lo + hi) / 2, hi, hi + 1):
                got = [None if v is None else int(v) for v in G.get_intervals_at_time(t)]
                for v, T in zip(got, G):
                    if g["kind"] == "P":
                        ok = v is None if not len(T) else abs(float(T[v].time) - t) == min(abs(float(p.time) - t) for p in T)
                    else:
                        ok = v == next((i for i, x in enumerate(T) if x.start <= t < x.end), None)
                    if not ok:
                        raise Violation("a lookup in a group that is in no grid is wrong after " + op, "at %r: %r" % (t, got))

    @staticmethod
    def judge(w, op):
        e = w.errors()
        if e:
            raise Violation("something that is in no grid is wrong after " + op, first(e))

    def threads(self, plan, ctx):
        n = len(plan["tasks"])
        cl = self.classes(plan)
        ws = []
        for i in range(n):
            d = os.path.join(ctx.dir, "w%d" % i)
            os.makedirs(d)
            ws.append(Worker(d, cl, "uvw"[i]))

        def body(i):
            def go():
                for st in plan["tasks"][i]:
                    if self.step(ws[i], st, ctx):
                        self.judge(ws[i], st["op"])
            return go
        sc = plan["sched"]
        sub = dict(plan, sched=dict(sc, interrupts={k: v for k, v in sc.get("interrupts", {}).items() if int(k) < n},
                                    first=sc.get("first", 0) % n))
        s = run_threads(sub, [body(i) for i in range(n)], ctx)
        for i in range(n):
            e = s.errors[i]
            if e is None or i in s.fired_tasks:
                continue
            if isinstance(e, (Violation, Stop)):
                raise e
            raise Violation("a thread that works on something in no grid fails", "%s: %s" % (type(e).__name__, e))
        for i in range(n):
            if i not in s.fired_tasks:
                self.judge(ws[i], "all threads")
        ctx.nontrivial = len(s.switches) >= 2
        ctx.state([[[r.label for r in b.recs] for b in w.boxes] for w in ws])
