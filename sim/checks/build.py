"""C13: the order in which a grid is put together does not matter."""
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops

WAYS = ["words", "words", "words", "tiers", "entries", "flat", "add groups", "add tiers"]
HOWS = ["append", "super", "append_sub", "prop", "set", "word", "phones", "add", "radd", "shuffle_append", "shuffle_super", "again"]


class C13(Check):
    ID = "C13"
    RUNS = (6500, 100000)
    STUBS = ["producers: simulated tasks; the seed decides whose operation comes next"]
    RULE = ("a run = one seeded grid content and 1-4 simulated producers that hold its parts (words with their complete "
            "subtrees, single entries, points, tiers, groups) and hand them in one by one in a seeded interleaving, before "
            "or after the groups and the grid exist, through append, +, set_super_instance, set_subset_list and the "
            "subset_list property, with duplicates; the result must be the same grid, with right links, whatever the order; "
            "non-trivial = at least three parts handed in")

    def generate(self, r, size):
        s = gen.spec(r, points=True if r.random() < 0.5 else None, force_via="groups")
        return {"spec": s, "ways": [r.choice(WAYS) for _ in range(6)],
                "finish": r.choice(["early", "early", "late", "late", "empty", "one by one", "grow"]),
                "how": [r.choice(HOWS) for _ in range(6)], "producers": r.choice([1, 2, 3, 4]), "salt": r.randrange(1 << 30),
                "permute_sets": r.random() < 0.5, "dup": r.random() < 0.3, "cls": r.choice(["own", "orig"])}

    def shrinkers(self, plan):
        return H.spec_shrinkers(["spec"])

    def execute(self, plan, ctx):
        D.start(ctx, plan)
        s = plan["spec"]
        cl = W.Classes()
        want = M.from_spec(s)
        b = Builder(plan, s, cl, ctx)
        try:
            grid = b.build()
        except (Violation, Stop):
            raise
        except Exception as e:
            import traceback
            raise Violation("putting a grid together failed", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:]))
        ctx.nontrivial = b.parts >= 3
        ctx.state(O.content(grid))
        got, exp = O.content(grid), M.content(want)
        if len(got) == len(exp):
            for gi in b.unnamed:
                got[gi]["tiers"] = exp[gi]["tiers"] = None
        d = O.same_tree(got, exp, 1e-9)
        if d:
            raise Violation("the order of assembly changed the grid", "%s, %s: %s" % (plan["ways"], plan["finish"], d))
        e = O.precedence_errors(grid) + O.hierarchy_errors(grid) + O.accessor_errors(grid, renamed=b.plan["finish"] == "grow")
        if e:
            raise Violation("the order of assembly left wrong links", "%s, %s: %s" % (plan["ways"], plan["finish"], first(e)))


class Builder:
    def __init__(self, plan, s, cl, ctx):
        self.plan, self.s, self.cl, self.ctx = plan, s, cl, ctx
        self.dice = W.rng("dice", plan["salt"])
        self.parts = 0
        self.queue = []           # parts still to be handed in: (kind, group, what, ...)
        self.unnamed = set()      # groups made by calls that do not take tier names
        self.grown = []           # tiers that come once the group is in the grid

    def build(self):
        from aligned_textgrid import AlignedTextGrid
        plan, finish = self.plan, self.plan["finish"]
        groups = []
        nodes = M.from_spec(self.s)
        for gi, (g, o) in enumerate(zip(self.s["groups"], self.s["order"])):
            classes = self.cl.get(self.s["hiers"][g["h"]])[g.get("k0", 0):]
            names = gen.names_of(self.s["hiers"], g)
            way = plan["ways"][gi % len(plan["ways"])]
            self.ctx.counts["way: " + way] += 1
            how = plan["how"][gi % len(plan["how"])]
            if "tree" in g:
                groups.append(self.intervals(gi, g, o, classes, names, nodes[gi]["tree"], way, how))
            else:
                groups.append(self.points(gi, g, o, classes, names, way))
        self.ctx.counts["finish: " + finish] += 1
        if finish == "early":         # complete groups first, the grid last
            self.hand_in(lambda gi: groups[gi])
            return AlignedTextGrid(groups)
        if finish in ("late", "grow"):          # the grid first
            grid = AlignedTextGrid(groups)
            left = list(self.grown)
            while left:
                at = self.dice.choice([x for x in left if all(y[0] != x[0] or y[1] >= x[1] for y in left)])
                left.remove(at)
                gi, j, tier = at
                grid[gi].append(tier)
                self.note("tier into grid", gi, j)
            self.hand_in(lambda gi: grid[gi])
            return grid
        if finish == "empty":
            grid = AlignedTextGrid()
            for gi, x in enumerate(groups):
                grid.append(x)
                self.note("group", gi)
            self.hand_in(lambda gi: grid[gi])
            return grid
        # one by one: the parts for a group may come before or after it joins the grid
        k = self.dice.randrange(len(groups)) + 1
        where = dict(enumerate(groups))
        grid = AlignedTextGrid(groups[:k])
        for gi in range(k):
            where[gi] = None
        n = len(self.queue)
        cut = sorted(self.dice.randrange(n + 1) for _ in groups[k:])
        for gi, c in enumerate(cut):
            self.hand_in(lambda i: where[i] if where[i] is not None else grid[i], c - (n - len(self.queue)))
            grid.append(groups[k + gi])
            where[k + gi] = None
            self.note("group", k + gi)
        self.hand_in(lambda i: where[i] if where[i] is not None else grid[i])
        return grid

    def note(self, *a):
        self.parts += 1
        self.ctx.event(*a)
        self.ctx.fault("reordered delivery")

    def shuffled(self, seq):
        seq = list(seq)
        self.dice.shuffle(seq)
        return seq

    # -- producers
    def hand_in(self, where, limit=None):
        n = self.plan["producers"]
        prod = [self.queue[i::n] for i in range(n)]
        done = 0
        while any(prod) and (limit is None or done < limit):
            p = self.dice.choice([p for p in prod if p])
            part = p.pop(0)
            done += 1
            kind, gi, what, how, classes = part
            G = where(gi)
            self.note("hand in", kind, gi, what, how)
            if kind == "w":
                use = list(G.entry_classes) if self.plan["cls"] == "own" else classes
                x = self.entry(use, what, how)
                self.apart(x, what, how)
                T = G[0]
                if len(x) and self.dice.random() < 0.3:      # by way of one of its descendants
                    lv = 0
                    while len(x) and (lv == 0 or self.dice.random() < 0.5):
                        x = x[self.dice.randrange(len(x))]
                        lv += 1
                    T = G[lv]
                    self.ctx.counts["handed in by a descendant"] += 1
            else:
                T = G[how]
                x = (T.entry_class if self.plan["cls"] == "own" else classes)((what[0], what[1]))
            T.append(x)
            if self.plan["dup"]:
                T.append(x)        # handing the same entry in twice adds nothing
                self.ctx.fault("duplicate delivery")
        self.queue = [x for p in prod for x in p]

    # -- one entry with its subtree
    def entry(self, classes, node, how):
        kids = [k for k in node[3]]
        if not kids or not how.startswith(("shuffle", "again")):
            return ops.build_entry(classes, node, how) if not kids else ops.link(
                classes[0]((node[0], node[1], node[2])), [self.entry(classes[1:], k, how) for k in kids], how)
        x = classes[0]((node[0], node[1], node[2]))
        for k in self.shuffled([self.entry(classes[1:], k, how) for k in kids]):
            if how == "shuffle_append":
                x.append(k)
            elif how == "shuffle_super":
                k.set_super_instance(x)
            else:                   # the same child handed over by several calls
                for call in self.shuffled([lambda: k.set_super_instance(x), lambda: x.append(k),
                                           lambda: x.append_subset_list(k)]):
                    call()
                self.ctx.fault("duplicate delivery")
        return x

    def apart(self, x, node, how):
        """An entry that is not in a grid yet is put together right as well."""
        stack, d = [(x, node)], None
        while stack and not d:
            e, n = stack.pop()
            kids = list(e)
            if (e.start, e.end, e.label, len(kids)) != (n[0], n[1], n[2], len(n[3])):
                d = "%r has the wrong times, label or children" % e
            for i, k in enumerate(kids):
                if k.super_instance is not e or k.within is not e or k.within_index != i:
                    d = "%r does not know the entry it is part of" % k
                elif i and (k.prev is not kids[i - 1] or kids[i - 1].fol is not k):
                    d = "%r does not follow the entry before it" % k
            stack += list(zip(kids, n[3]))
        if d:
            raise Violation("an entry was put together wrong before it joined the grid", "%s: %s" % (how, d))

    # -- groups of intervals
    def intervals(self, gi, g, o, classes, names, nodes, way, how):
        from aligned_textgrid import SequenceTier, TierGroup
        if self.plan["finish"] == "grow" and len(names) > 1 and way not in ("words", "entries"):
            k = self.dice.randrange(1, len(names))
            ts = [self.tier(g, classes, nodes, j) for j in range(len(names))]
            self.grown += [(gi, j, ts[j]) for j in range(k, len(names))]
            return TierGroup(self.shuffled(ts[:k]))
        if way == "tiers":
            return self.next_to([self.tier(g, classes, nodes, j) for j in range(len(names))])
        if way == "entries":
            self.unnamed.add(gi)
            lv, cur = [], self.shuffled([self.entry(classes, n, how) for n in nodes])
            for _ in names:
                lv.append(cur)
                cur = [k for x in cur for k in x]
            self.parts += 3
            return TierGroup(self.shuffled([SequenceTier(self.shuffled(L), classes[j]) for j, L in enumerate(lv)]))
        if way == "flat":            # every tier gets its entries one at a time, in any order
            self.unnamed.add(gi)
            ts = []
            for j in range(len(names)):
                L = self.shuffled([classes[j]((n[0], n[1], n[2])) for n in M.level({"tree": nodes}, j)])
                k = self.dice.randrange(len(L) or 1)
                t = SequenceTier(L[:k], classes[j])
                for x in L[k:]:
                    t.append(x)
                    self.note("entry", gi, j)
                ts.append(t)
            return TierGroup(self.shuffled(ts)) if self.dice.random() < 0.5 else self.next_to(ts)
        if way in ("add groups", "add tiers") and len(nodes) > 1:
            self.unnamed.add(gi)
            n = self.dice.choice([2, 2, 3])
            piles = [[] for _ in range(n)]
            for x in nodes:
                self.dice.choice(piles).append(x)
            piles = self.shuffled([p for p in piles if p])
            self.parts += len(piles)
            if way == "add groups":
                out = None
                for p in piles:
                    new = ops.build_group(names, g["tiers"], classes, p, order=o, name_tiers=self.dice.random() < 0.5)
                    out = new if out is None else out + new
                    self.ctx.event("add group", gi, len(p))
                return out
            ts = []
            for j in range(len(names)):
                t = None
                for p in self.shuffled(piles):
                    new = SequenceTier([classes[j]((x[0], x[1], x[2])) for x in M.level({"tree": p}, j)], classes[j])
                    t = new if t is None else t + new
                ts.append(t)
            return TierGroup(self.shuffled(ts))
        idx = self.shuffled(range(len(nodes)))
        n = self.dice.choice([0, 1, 1, 1])       # nothing there yet, or one entry
        for i in idx[n:]:
            self.queue.append(("w", gi, nodes[i], how, classes))
        return ops.build_group(names, g["tiers"], classes, [nodes[i] for i in idx[:n]], order=o)

    def tier(self, g, classes, nodes, j):
        from aligned_textgrid import SequenceTier
        from praatio.data_classes.interval_tier import IntervalTier
        es = [(x[0], x[1], x[2]) for x in M.level({"tree": nodes}, j)]
        return SequenceTier(IntervalTier(g["tiers"][j], es, **({} if es else {"minT": 0, "maxT": 1})), classes[j])

    def next_to(self, made):
        """A group that gets its tiers one at a time, each next to one already there."""
        from aligned_textgrid import TierGroup
        k = self.dice.randrange(len(made))
        have = [k]
        g = TierGroup([made[k]])
        while len(have) < len(made):
            j = self.dice.choice([j for j in (min(have) - 1, max(have) + 1) if 0 <= j < len(made)])
            g.append(made[j])
            have.append(j)
            self.note("tier", j)
        return g

    # -- groups of points
    def points(self, gi, g, o, classes, names, way):
        from aligned_textgrid import PointsGroup, SequencePointTier
        pts = g["points"]
        if self.plan["finish"] == "grow" and len(names) > 1:
            ts = [ops.build_group([names[j]], [g["tiers"][j]], [classes[j]], pts=[pts[j]])[0] for j in o]
            self.grown += [(gi, k, ts[k]) for k in range(1, len(ts))]
            return PointsGroup(ts[:1])
        if way in ("add groups", "add tiers"):
            self.unnamed.add(gi)
            cut = [self.shuffled(p) for p in pts]
            at = [self.dice.randrange(0, len(p) + 1) for p in pts]
            halves = self.shuffled([[p[:k] for p, k in zip(cut, at)], [p[k:] for p, k in zip(cut, at)]])
            self.parts += 2
            if way == "add groups":
                a, b = [ops.build_group(names, g["tiers"], classes, pts=h, order=o, name_tiers=False) for h in halves]
                return a + b
            ts = []
            for j in o:
                a, b = [SequencePointTier([classes[j]((p[0], p[1])) for p in h[j]], classes[j]) for h in halves]
                ts.append(a + b)
            return PointsGroup(ts)
        if way in ("tiers", "entries", "flat"):
            ts = [ops.build_group([names[j]], [g["tiers"][j]], [classes[j]], pts=[self.shuffled(pts[j])])[0] for j in o]
            G = PointsGroup(ts[:1])
            for t in ts[1:]:
                G.append(t)
                self.note("point tier", gi)
            return G
        cut = [self.shuffled(p) for p in pts]
        for j in range(len(names)):
            for q in cut[j][1:]:
                self.queue.append(("p", gi, q, o.index(j), classes[j]))
        return ops.build_group(names, g["tiers"], classes, pts=[c[:1] for c in cut], order=o)
