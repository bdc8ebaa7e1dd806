from .. import driver as D, gen, harness as H, model as M, observe as O, ops, world as W
from ..harness import Stop, Violation

WELL_FORMED = ("grids are well formed: complete hierarchies per group, tight nested tiers, class names unique per grid, "
               "times >= 0, durations >= 4 ms, no label '#' (reserved by the library) and no label that a TextGrid "
               "file cannot hold")


class Check:
    ID = None
    RUNS = (2000, 60000)
    LEVEL = "exploration"
    RULE = ""
    STUBS = []
    ASSUMES = [WELL_FORMED]

    def generate(self, r, size):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrinkers(self, plan):
        out = [H.field("steps")] if "steps" in plan else []
        if "spec" in plan:
            out += H.spec_shrinkers(["spec"])
        return out


class HistoryCheck(Check):
    """One grid, a random history, an oracle after every step."""
    EDITS = ops.EDITS
    PERTURB = 0.15
    RESTART = 0.06
    OWN = ()              # operations whose failure is this property's business
    LENGTHS = (3, 6, 10, 16)
    STUBS = ["files: real files in a scratch directory behind the simulated disk",
             "line-level interrupts: sys.settrace",
             "iteration order of sets: permuted by the seed"]
    RULE = ("a run = one seeded TextGrid (1-5 groups, 1-6 levels, points, 5 ways of loading it) and one seeded history "
            "of edits, refused edits, interrupted reads, abandoned iterators, gc and crash/restart from file or pickle, "
            "the oracle applied after the load and after every step; non-trivial = at least two edits took effect; "
            "distinct = different event logs (operations with arguments, and hashes of all states)")

    def generate(self, r, size):
        n = r.choice(self.LENGTHS) * (1 if not size else r.choice([1, 2, 4]))
        return {"spec": self.spec(r), "steps": D.gen_history(r, n, self.EDITS, self.PERTURB, self.RESTART),
                "permute_sets": r.random() < 0.5}

    def spec(self, r):
        return gen.spec(r)

    def execute(self, plan, ctx):
        D.start(ctx, plan)
        h = D.History(ctx, plan["spec"])
        try:
            h.load()
        except D.OpFailed as e:
            raise Stop("load failed: " + str(e))
        ctx.state(O.content(h.slot.grid))
        self.begin(h, ctx)
        diverged = h.agrees()
        self.judge(h, "load", ctx, None)
        if diverged:
            raise Stop("loaded grid differs from the model")
        edits = 0
        for i, st in enumerate(plan["steps"]):
            before = self.before(h, st)
            try:
                done = h.step(st)
            except D.OpFailed as e:
                if e.name in self.OWN:
                    raise Violation("%s failed" % e.name, "%s\nstep %d %r" % (e, i, st))
                self.failed(h, e.name, ctx)
                raise Stop("operation failed: " + str(e))
            if not done:
                continue
            ctx.state(O.content(h.slot.grid))
            if st["op"] in ops.OPS:
                edits += 1
                ctx.nontrivial = ctx.nontrivial or edits >= 2
            diverged = h.agrees()
            self.judge(h, st["op"], ctx, before)
            if diverged:
                raise Stop("grid differs from the model: after " + st["op"])

    def begin(self, h, ctx):
        pass

    def before(self, h, st):
        return None

    def judge(self, h, op, ctx, before):
        raise NotImplementedError

    def failed(self, h, op, ctx):
        """An edit raised that should not have; checks of invariants still look at the grid."""


def first(errs):
    return "\n".join(str(e) for e in errs[:6])
