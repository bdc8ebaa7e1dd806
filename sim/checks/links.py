"""C06 precedence, C07 hierarchy, C08 edits, C11 levels, C12 views."""
from .. import gen
from .base import D, M, O, HistoryCheck, Stop, Violation, first, ops


def reading(fn, what):
    """Reading must work at all."""
    try:
        return fn()
    except Exception as e:
        import traceback
        raise Violation(what + ": reading raised", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-900:]))


class C06(HistoryCheck):
    ID = "C06"
    RUNS = (6000, 120000)

    def judge(self, h, op, ctx, before):
        e = reading(lambda: O.precedence_errors(h.slot.grid), "precedence")
        if e:
            raise Violation("precedence is wrong after " + op, first(e))

    def failed(self, h, op, ctx):
        self.judge(h, "a failing " + op, ctx, None)


class C07(HistoryCheck):
    ID = "C07"
    RUNS = (6000, 120000)

    def judge(self, h, op, ctx, before):
        e = reading(lambda: O.hierarchy_errors(h.slot.grid), "hierarchy")
        if e:
            raise Violation("hierarchy is wrong after " + op, first(e))

    def failed(self, h, op, ctx):
        self.judge(h, "a failing " + op, ctx, None)


class C08(HistoryCheck):
    ID = "C08"
    RUNS = (7000, 120000)
    OWN = tuple(ops.OPS)
    RESTART = 0.04

    def judge(self, h, op, ctx, before):
        if op not in ops.OPS:
            return
        d = reading(h.agrees, "content")
        if d:
            raise Violation("the grid is not what the edit promises: " + op, d)
        for gi, (g, x) in enumerate(zip(h.slot.m, h.slot.grid)):
            if g["name"] and x.name != g["name"]:
                raise Violation("the name of a group was lost: " + op, "group %d: %r is now %r" % (gi, g["name"], x.name))
        flat = []
        for g in h.slot.m:
            for t in range(len(g["cls"])):
                if g["kind"] == "I":
                    flat.append([[n[0], n[1], n[2]] for n in M.level(g, t)])
                else:
                    flat.append([[p[0], p[1]] for p in g["pts"][t]])
        d = O.same_tree(reading(lambda: O.tier_content(h.slot.grid), "content"), flat, 1e-9)
        if d:
            raise Violation("the tiers are not what the edit promises: " + op, d)


class C11(HistoryCheck):
    """Levels: the same history with many more level changes."""
    ID = "C11"
    RUNS = (5500, 120000)
    EDITS = {"relabel": 1, "feature": 3, "fuse": 2, "append_word": 2, "split": 1, "reassign": 1, "interleave": 10,
             "pop_level": 8, "append_group": 2, "append_tier": 3, "concat": 1, "shift": 1, "re_relate": 1, "rename": 3}
    OWN = ("interleave", "pop_level", "append_tier")
    PERTURB = 0.1

    def generate(self, r, size):
        p = super().generate(r, size)
        # a level put in and taken out again
        if r.random() < 0.6:
            k = r.randrange(len(p["steps"]) + 1)
            nm = r.choice(["Temp", "Lvl"])
            o = ops.OPS["interleave"].gen(r)
            o.update(op="interleave", name=nm)
            p["steps"][k:k] = [o, {"op": "undo_level", "name": nm}]
        return p

    def before(self, h, st):
        s = h.slot
        if st["op"] in ("interleave", "pop_level", "undo_level", "append_tier"):
            gone = st.get("name") if st["op"] == "undo_level" else None
            if st["op"] == "pop_level":
                a = ops.OPS["pop_level"].prep(s.m, st, s.info)
                gone = a and a["name"]
            names = [x.name for x, g in zip(s.grid, s.m) if list(g["cls"]) != [gone]]
            return {"user": h.classes.snapshot(), "content": M.content(s.m), "names": names}
        return None

    def judge(self, h, op, ctx, before):
        if before is None:
            return
        s = h.slot
        if op == "undo_level":
            ctx.counts["level added and removed again"] += 1
        d = reading(h.agrees, "content")
        if d:
            raise Violation("a level change altered something else: " + op, d)
        e = reading(lambda: O.chain_errors(s.grid), "class chain")
        if e:
            raise Violation("class hierarchy is wrong after " + op, first(e))
        e = reading(lambda: O.accessor_errors(s.grid, any(g["name"] for g in s.m)), "named access")
        if e:
            raise Violation("named access is stale after " + op, first(e))
        for gi, (a, g) in enumerate(zip(before["names"], s.grid)):
            if a and g.name != a and op != "append_tier":
                raise Violation("a level change renamed a group: " + op, "group %d: %r -> %r" % (gi, a, g.name))
        for a, b in zip(before["user"], h.classes.snapshot()):
            if a != b:
                raise Violation("a class of the caller was changed by " + op, "%r -> %r" % (a, b))


class C12(HistoryCheck):
    ID = "C12"
    RUNS = (2200, 80000)

    def spec(self, r):
        return gen.spec(r, points=True if r.random() < 0.4 else None)

    def judge(self, h, op, ctx, before):
        g = h.slot.grid
        lo, hi = M.bounds(h.slot.m)
        r = [lo, hi, lo + (hi - lo) / 3, (lo + hi) / 2, lo - 1.0, hi + 1.0]
        ig = [x for x in h.slot.m if x["kind"] == "I" and x["tree"]]
        if ig:
            n = M.level(ig[0], len(ig[0]["cls"]) - 1)
            r.append(n[len(n) // 2][0])
        self.k = getattr(self, "k", 0) + 1
        e = reading(lambda: O.view_errors(g, times=r, df=self.k % 3 == 1 or op == "load"), "view")
        if not e:
            e = reading(lambda: O.validity_errors(g, self.k), "validity")
        if e:
            raise Violation("a view disagrees with the grid after " + op, first(e))
        ctx.counts["views compared"] += 1
