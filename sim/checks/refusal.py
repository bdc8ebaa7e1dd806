"""C09: what is refused leaves no trace."""
from .. import refused
from .base import Check, D, H, M, O, Stop, Violation, W, first, gen, ops


def snapshot(g):
    return [O.content(g), [x.name for x in g], [[id(x) for x in t] for G in g for t in G], O.precedence_errors(g),
            O.hierarchy_errors(g), O.chain_errors(g), O.accessor_errors(g, True)]


def final(h):
    """Everything observable at the end of a history."""
    g = h.slot.grid
    e = O.view_errors(g, times=(0.3, 1.7), df=False)
    return [O.content(g), [x.name for x in g], O.precedence_errors(g), O.hierarchy_errors(g), O.chain_errors(g), e]


class C09(Check):
    ID = "C09"
    RUNS = (4000, 100000)
    LEVEL = "fault_enumeration"
    STUBS = ["user callbacks that fail: injected", "files: simulated disk"]
    RULE = ("a run = one seeded TextGrid and a seeded history in which about half the steps are edits the library must "
            "refuse (25 kinds: fusing at an edge, a failing label function, entries and tiers of a foreign class, bad level "
            "changes, wrong numbers of times, mismatched concatenation, unknown formats, ...); each must raise and leave "
            "content, names, identity of entries, links and the other participants untouched, and the whole history must "
            "end as the same history without the refused steps does; non-trivial = a refused step followed by an edit")

    def generate(self, r, size):
        n = r.choice([3, 6, 10]) * (1 if not size else r.choice([1, 2, 4]))
        steps = []
        for _ in range(n):
            if r.random() < 0.5:
                steps.append(refused.gen_step(r))
                if steps[-1]["kind"] == "interleave" and r.random() < 0.6:
                    # what was refused is then done properly, or its name is used for something else
                    o = r.choice(["interleave", "append_group", "append_group"])
                    o = dict(ops.OPS[o].gen(r), op=o)
                    o.update({"name": "Refused"} if "timing" in o else {"src": "new", "k": 0})
                    steps.append(o)
            else:
                steps.append(ops.random_op(r))
        return {"spec": gen.spec(r, points=True if r.random() < 0.3 else None), "steps": steps,
                "permute_sets": r.random() < 0.5}

    def execute(self, plan, ctx):
        def without():
            h = D.History(ctx, plan["spec"], name="w").load()
            for st in plan["steps"]:
                if st["op"] != "refused":
                    h.step(st)
            return final(h)
        D.start(ctx, plan)
        kind, want = H.isolate(without)
        h = D.History(ctx, plan["spec"], name="w")
        try:
            h.load()
        except D.OpFailed as e:
            raise Stop("load failed: " + str(e))
        nref = 0
        for st in plan["steps"]:
            if st["op"] == "refused":
                nref += self.refuse(h, st, ctx)
                continue
            try:
                done = h.step(st)
            except D.OpFailed as e:
                if kind == "ok":
                    raise Violation("an edit fails after a refused one", str(e))
                raise Stop("operation failed: " + str(e))
            if done:
                ctx.nontrivial = ctx.nontrivial or nref > 0
                ctx.state(O.content(h.slot.grid))
                if kind == "ok" and h.agrees():
                    break
        if kind != "ok":
            raise Stop("operation failed: without the refused steps too")
        got = final(h)
        d = O.same_tree(got, want, 1e-9)
        if d and nref:
            raise Violation("a refused edit has an effect later on", d)

    def refuse(self, h, st, ctx):
        b = refused.build(h, st)
        if b is None:
            return 0
        call, others, show = b
        g = h.slot.grid
        before, oth = snapshot(g), others()
        err = None
        try:
            call()
        except Exception as e:
            err = e
        ctx.event("refused", st["kind"], show, err is not None)
        if err is None:
            raise Violation("not refused: " + st["kind"], repr(show))
        ctx.fault("refused:" + st["kind"])
        try:
            after = snapshot(g)
        except Exception as e:
            raise Violation("a refused edit broke the grid: " + st["kind"], "%r: %s: %s" % (show, type(e).__name__, e))
        if after != before:
            d = O.same_tree(after, before)
            raise Violation("a refused edit changed the grid: " + st["kind"], "%r: %s" % (show, d))
        if others() != oth:
            raise Violation("a refused edit changed the other participant: " + st["kind"], "%r: %s" % (show, O.same_tree(others(), oth)))
        return 1
