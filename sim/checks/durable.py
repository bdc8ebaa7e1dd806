"""C01 acknowledged saves, C02 failing saves, C03 loads, C10 pickles."""
import os

from .. import disk, refused, sched
from .base import Check, D, H, M, O, Stop, Violation, W, WELL_FORMED, first, gen, ops

DISK_STUB = ["file system: real files in a scratch directory; open/read/write/close/rename/fsync go through the simulated "
             "disk (64-byte buffers, so one save is many raw writes)"]


def gen_fault(r, write=True):
    x = r.random()
    if write:
        if x < 0.45:
            return {"at": "write", "frac": r.choice([0.0, 0.0, 0.1, 0.5, 0.9, 0.99, 1.0]) if r.random() < 0.7 else r.random(),
                    "errno": r.choice(["ENOSPC", "EIO", "EDQUOT"])}
        if x < 0.6:
            return {"at": "open", "errno": r.choice(["EACCES", "ENOSPC", "EMFILE", "EROFS"])}
        if x < 0.75:
            return {"at": "close", "errno": r.choice(["EIO", "ENOSPC"])}
        return {"at": "write", "frac": r.random(), "crash": True}
    if x < 0.7:
        return {"at": "read", "frac": r.choice([0.0, 0.3, 0.5, 0.9]) if r.random() < 0.5 else r.random(), "errno": "EIO"}
    return {"at": "open", "errno": r.choice(["EACCES", "EMFILE", "ENOENT"])}


def arm(f, size):
    f = dict(f)
    if "frac" in f:
        f["after"] = int(f.pop("frac") * size)
    disk.arm(f)


def load_saved(m, path):
    """Load a saved grid back, through the library."""
    from aligned_textgrid import AlignedTextGrid
    ec, _, _ = D.reload_spec(m, None)
    return AlignedTextGrid(path, ec)


def compare_saved(m, data, where, tag, what):
    """The bytes on the disk, loaded by the library, are the grid's content."""
    q = os.path.join(where, "probe.TextGrid")
    disk.put(q, data)
    try:
        g = load_saved(m, q)
    except Exception as e:
        raise Violation(what + " cannot be loaded", "%s: %s: %s" % (tag, type(e).__name__, e))
    d = O.same_tree(D.strip_content(O.content(g, feats=False, names=False)), D.saved_content(m), 1e-9)
    if d:
        raise Violation(what + " does not hold the grid", "%s: %s" % (tag, d))
    want = [x["tiers"] for x in m]
    got = [[t.name for t in x] for x in g]
    if not D.names_ok(want, got):
        raise Violation(what + " does not hold the tier names", "%s: %r -> %r" % (tag, want, got))


class DurableCheck(Check):
    STUBS = DISK_STUB

    def history(self, ctx, plan):
        D.start(ctx, plan)
        h = D.History(ctx, plan["spec"])
        try:
            h.load()
        except D.OpFailed as e:
            raise Stop("load failed: " + str(e))
        if h.agrees():
            raise Stop("loaded grid differs from the model")
        return h

    def run_step(self, h, st):
        """An ordinary step of the history; anything odd in it is another property's business."""
        try:
            done = h.step(st)
        except D.OpFailed as e:
            raise Stop("operation failed: " + str(e))
        if done and h.agrees():
            raise Stop("grid differs from the model: after " + st["op"])
        return done


def on_disk(p):
    """The file of an acknowledged save."""
    try:
        return disk.raw_bytes(p)
    except FileNotFoundError:
        raise Violation("an acknowledged save left no file", os.path.basename(p))


class C01(DurableCheck):
    ID = "C01"
    RUNS = (6000, 100000)
    RULE = ("a run = one seeded TextGrid, a seeded history of edits and restarts, and saves at seeded points (4 formats, "
            "str/Path, three file names that get overwritten, single-tier saves, short reads and writes); after each "
            "acknowledged save the bytes on the disk - past all buffers - are loaded and compared with the reference "
            "model, and every acknowledged file is read again at the end; non-trivial = an edit before a save")
    ASSUMES = [WELL_FORMED, "labels and names are compared after stripping outer white space (the TextGrid reader strips it)",
               "times are compared to 1e-9 s"]

    def generate(self, r, size):
        n = r.choice([2, 4, 7]) * (1 if not size else r.choice([1, 2, 4]))
        steps = D.gen_history(r, n, perturb=0.08, restart=0.08)
        for _ in range(r.choice([1, 2, 3])):
            s = {"op": "save", "f": r.randrange(3), "fmt": r.choice(gen.FORMATS + ["default"]), "how": r.choice(["str", "path", "kw"]),
                 "short": r.choice([0, 0, 1, 3, 7, 50])}
            if r.random() < 0.15:
                s = {"op": "save_tier", "g": r.randrange(9), "t": r.randrange(9), "f": r.randrange(3), "short": s["short"]}
            steps.insert(r.randrange(len(steps) + 1) if r.random() < 0.6 else len(steps), s)
        if r.random() < 0.3:
            steps.append({"op": "save_unfit", "f": r.randrange(3), "fmt": r.choice(gen.FORMATS), "at": O.gen_unfit(r)})
        return {"spec": gen.spec(r, points=True if r.random() < 0.4 else None), "steps": steps, "permute_sets": False}

    def execute(self, plan, ctx):
        h = self.history(ctx, plan)
        acked, edits = {}, 0
        for st in plan["steps"]:
            if st["op"] == "save":
                if not D.same_class_names(h.slot.m):
                    continue
                self.save(h, st, ctx, acked)
                ctx.nontrivial = ctx.nontrivial or edits > 0
            elif st["op"] == "save_tier":
                self.save_tier(h, st, ctx, acked)
            elif st["op"] == "save_unfit":
                self.save_unfit(h, st, ctx)
            elif self.run_step(h, st):
                edits += st["op"] in ops.OPS
            ctx.state(O.content(h.slot.grid))
        for p, (data, m) in sorted(acked.items()):
            if disk.raw_bytes(p) != data:
                raise Violation("an acknowledged file changed later", os.path.basename(p))

    def save(self, h, st, ctx, acked):
        import pathlib
        g, m = h.slot.grid, h.slot.m
        p = h.path("save%d" % st["f"])
        arg = pathlib.Path(p) if st["how"] == "path" else p
        if st["short"]:
            disk.arm({"at": "short", "n": st["short"]})
        ctx.event("save", st["f"], st["fmt"], st["how"], st["short"])
        try:
            if st["fmt"] == "default":
                g.save_textgrid(save_path=arg) if st["how"] == "kw" else g.save_textgrid(arg)
            elif st["how"] == "kw":
                g.save_textgrid(save_path=arg, format=st["fmt"])
            else:
                g.save_textgrid(arg, st["fmt"])
        except Exception as e:
            raise Violation("a save without any fault failed", "%s %s: %s" % (st, type(e).__name__, e))
        finally:
            if disk.disarm():
                ctx.fault("short reads and writes")
        ctx.counts["save:" + st["fmt"]] += 1
        data = on_disk(p)          # what a crash right now would leave
        acked[p] = (data, None)
        d = h.agrees()
        compare_saved(m, data, ctx.dir, "format %s" % st["fmt"], "an acknowledged save")
        if d or h.agrees():
            raise Violation("saving changed the grid", str(d or h.agrees()))

    def save_tier(self, h, st, ctx, acked):
        from aligned_textgrid import AlignedTextGrid, custom_classes
        m = h.slot.m
        gi = st["g"] % len(m)
        ti = st["t"] % len(m[gi]["cls"])
        T = h.slot.grid[gi][ti]
        p = h.path("tier%d" % st["f"])
        ctx.event("save_tier", gi, ti, st["short"])
        if st["short"]:
            disk.arm({"at": "short", "n": st["short"]})
        try:
            T.save_as_tg(p)
        except Exception as e:
            raise Violation("a save without any fault failed", "save_as_tg %s: %s" % (type(e).__name__, e))
        finally:
            if disk.disarm():
                ctx.fault("short reads and writes")
        ctx.counts["save:tier"] += 1
        data = on_disk(p)
        acked[p] = (data, None)
        q = os.path.join(ctx.dir, "probe.TextGrid")
        disk.put(q, data)
        pts = m[gi]["kind"] == "P"
        name = m[gi]["cls"][ti]
        try:
            g = AlignedTextGrid(q, [custom_classes([name], points=[0] if pts else [])])
        except Exception as e:
            raise Violation("an acknowledged save cannot be loaded", "tier: %s: %s" % (type(e).__name__, e))
        if pts:
            want = [[[x[0], x[1].strip()] for x in m[gi]["pts"][ti]]]
        else:
            want = [[[n[0], n[1], n[2].strip()] for n in M.level(m[gi], ti)] or [[*M.bounds(m), ""]]]
        got = [[x[:-1] + [x[-1].strip()] for x in t] for t in O.tier_content(g)]
        d = O.same_tree(got, want, 1e-9)
        if d:
            raise Violation("an acknowledged save does not hold the tier", d)
        if g[0][0].name != m[gi]["tiers"][ti]:
            raise Violation("an acknowledged save does not hold the tier name", repr(g[0][0].name))


    def save_unfit(self, h, st, ctx):
        """Save while some entries have been shortened: the gaps are the user's business."""
        from praatio.textgrid import openTextgrid
        g = h.slot.grid
        p = h.path("unfit%d" % st["f"])
        ctx.event("save_unfit", st)
        undo = O.unfit(g, st["at"])
        try:
            before = O.tier_content(g)
            ids = [[id(x) for x in t] for G in g for t in G]
            try:
                g.save_textgrid(p, st["fmt"])
            except Exception as e:
                raise Violation("a save without any fault failed", "with gaps: %s: %s" % (type(e).__name__, e))
            if O.tier_content(g) != before or [[id(x) for x in t] for G in g for t in G] != ids:
                raise Violation("saving changed the grid", "with gaps in it")
        finally:
            undo()
        ctx.counts["save:with gaps"] += 1
        q = os.path.join(ctx.dir, "probe.TextGrid")
        disk.put(q, on_disk(p))
        try:
            tg = openTextgrid(q, includeEmptyIntervals=False)
        except Exception as e:
            raise Violation("an acknowledged save cannot be loaded", "with gaps: %s: %s" % (type(e).__name__, e))
        got = [[list(x[:-1]) + [x[-1].strip()] for x in t.entries if x[-1].strip()] for t in tg.tiers]
        want = [[list(x[:-1]) + [x[-1].strip()] for x in t if x[-1].strip()] for t in before]
        d = O.same_tree(got, want, 1e-9)
        if d:
            raise Violation("an acknowledged save does not hold the grid", "with gaps: " + d)


def listing(where):
    out = {}
    for n in sorted(os.listdir(where)):
        p = os.path.join(where, n)
        if os.path.isfile(p):
            out[n] = disk.raw_bytes(p)
    return out


class C02(DurableCheck):
    ID = "C02"
    RUNS = (5000, 100000)
    LEVEL = "fault_enumeration"
    RULE = ("a run = one seeded TextGrid, a seeded history, and saves that meet a fault at a seeded point: open fails, the "
            "disk fills or errors after k bytes, close fails, the process dies after k bytes, the call is interrupted or "
            "out of memory at a seeded source line, the directory is missing or the target is a directory; non-trivial = "
            "a fault fired")
    ASSUMES = [WELL_FORMED, "the previous content of the target of a failed save is not promised (the file is written in place)"]

    def generate(self, r, size):
        n = r.choice([0, 2, 4]) * (1 if not size else r.choice([1, 2, 4]))
        steps = D.gen_history(r, n, perturb=0.05, restart=0.03)
        for _ in range(r.choice([1, 2, 3, 4])):
            s = {"op": "badsave", "f": r.randrange(3), "fmt": r.choice(gen.FORMATS), "tier": r.random() < 0.12,
                 "g": r.randrange(9), "t": r.randrange(9)}
            x = r.random()
            if x < 0.7:
                s["fault"] = gen_fault(r)
            elif x < 0.85:
                s["interrupt"] = r.choice([1, 2, 3, 5, 8, 13, 20, 40, 80, 150, 300])
                s["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
            else:
                s["target"] = r.choice(["dir", "missing", "notdir"])
            if r.random() < 0.25:
                s["unfit"] = O.gen_unfit(r)
            steps.insert(r.randrange(len(steps) + 1), s)
            if r.random() < 0.5:
                steps.insert(r.randrange(len(steps) + 1), {"op": "goodsave", "f": r.randrange(3), "fmt": r.choice(gen.FORMATS)})
        return {"spec": gen.spec(r), "steps": steps, "permute_sets": False}

    def execute(self, plan, ctx):
        h = self.history(ctx, plan)
        self.litter = set()
        os.makedirs(os.path.join(ctx.dir, "d"))
        disk.put(os.path.join(ctx.dir, "bystander.TextGrid"), b"not yours")
        for st in plan["steps"]:
            if st["op"] in ("badsave", "goodsave"):
                if not D.same_class_names(h.slot.m):
                    continue
                if st["op"] == "goodsave":
                    self.good(h, st, ctx)
                else:
                    self.bad(h, st, ctx)
            else:
                self.run_step(h, st)
            ctx.state(O.content(h.slot.grid))

    def good(self, h, st, ctx):
        ctx.event("goodsave", st["f"], st["fmt"])
        p = h.path("save%d" % st["f"])
        try:
            h.slot.grid.save_textgrid(p, st["fmt"])
        except Exception as e:
            raise Stop("operation failed: save %r" % e)

    def bad(self, h, st, ctx):
        g, m = h.slot.grid, h.slot.m
        p = h.path("save%d" % st["f"])
        if st.get("target") == "dir":
            p = os.path.join(ctx.dir, "d")
        elif st.get("target") == "missing":
            p = os.path.join(ctx.dir, "nowhere", "x.TextGrid")
        elif st.get("target") == "notdir":
            p = os.path.join(ctx.dir, "bystander.TextGrid", "x.TextGrid")
        gi = st["g"] % len(m)
        T = g[gi][st["t"] % len(m[gi]["cls"])]
        call = (lambda: T.save_as_tg(p)) if st["tier"] else (lambda: g.save_textgrid(p, st["fmt"]))
        undo = O.unfit(g, st.get("unfit", []))
        before = O.content(g)
        links = [O.precedence_errors(g), O.hierarchy_errors(g)]
        ids = [[id(x) for x in t] for G in g for t in G]
        files = listing(ctx.dir)
        err, fired = None, None
        if "fault" in st:
            size = 40 + sum(60 * len(t) for G in g for t in G)
            arm(st["fault"], size)
            try:
                call()
            except disk.Crash as e:
                err = e
            except BaseException as e:      # noqa: B902
                err = e
            fired = disk.disarm()
            if fired:
                ctx.fault("save: " + fired)
        elif "interrupt" in st:
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[st["exc"]]
            _, err, n, f = sched.interrupted(call, st["interrupt"], exc)
            fired = st["exc"] + "@line" if f else None
            if fired:
                ctx.fault("save: " + st["exc"] + " at a line")
        else:
            try:
                call()
            except Exception as e:
                err = e
            fired = "target " + st["target"]
            ctx.fault("save: " + fired)
        ctx.event("badsave", st, fired, err is not None)
        dead = disk.crashed
        disk.restart()
        if fired:
            ctx.nontrivial = True
        tname = os.path.basename(p)
        if err is None:
            # acknowledged: then it must be there, fault or no fault
            if not os.path.isfile(p):
                raise Violation("a failed save was reported as done", "%r: there is no file" % st)
            if "unfit" in st:
                pass                        # the content is another step's business
            elif not st["tier"]:
                try:
                    compare_saved(m, disk.raw_bytes(p), ctx.dir, repr(st), "an acknowledged save under faults")
                except Violation as v:
                    if fired:
                        raise Violation("a failed save was reported as done", v.what + ": " + v.detail)
                    raise Stop("save without a fault is wrong")
            elif fired and fired != "short":
                raise Violation("a failed save was reported as done", "%r" % st)
        after = listing(ctx.dir)
        for n in sorted(set(files) | set(after)):
            if n in (tname, "probe.TextGrid") or n in self.litter:
                continue
            if (dead or "interrupt" in st) and n not in files:
                self.litter.add(n)          # a process that died could not tidy up, nor can a call cut off anywhere
            elif after.get(n) != files.get(n):
                raise Violation("a save touched another file", "%s after %r" % (n, st))
        if dead:
            return self.restart(h, st, ctx)
        d = O.same_tree(O.content(g), before)
        if d:
            raise Violation("a save changed the grid", "%r: %s" % (st, d))
        if [O.precedence_errors(g), O.hierarchy_errors(g)] != links or [[id(x) for x in t] for G in g for t in G] != ids:
            raise Violation("a save changed the structure of the grid", "%r" % st)
        undo()
        # the fault is over: saving works again
        if "target" not in st:
            try:
                g.save_textgrid(p, st["fmt"])
            except Exception as e:
                raise Violation("after a failed save, saving no longer works", "%r %s: %s" % (st, type(e).__name__, e))
            compare_saved(m, on_disk(p), ctx.dir, "retry after %r" % st, "the retry of a failed save")
            ctx.counts["retries"] += 1

    def restart(self, h, st, ctx):
        """The process died: start again from the input file."""
        h.load()
        if h.agrees():
            raise Violation("after a crash during a save, the input file no longer loads the same", repr(st))
        ctx.fault("crash and restart from file")


class C03(DurableCheck):
    ID = "C03"
    RUNS = (6500, 100000)
    LEVEL = "fault_enumeration"
    RULE = ("a run = 1-2 seeded TextGrids written by an independent writer (4 formats, UTF-8/16, LF/CRLF) and a seeded "
            "sequence of loads: clean, with short reads, with read/open errors after k bytes, interrupted or out of memory "
            "at a seeded source line, from a torn file, from a file replaced in between, from an in-memory TextGrid, each "
            "followed by clean loads; non-trivial = a fault fired or a file was replaced")

    def generate(self, r, size):
        specs = [gen.spec(r, allow_groups=False) for _ in range(2)]
        for s in specs:
            if s["via"] == "obj" and r.random() < 0.5:
                s["via"] = "str"
        twin = r.random() < 0.3
        if twin:                           # the same file but for one letter: same path, size and times
            specs[1] = gen.twin(r, specs[0])
        steps = []
        for _ in range(r.choice([2, 3, 4]) * (1 if not size else r.choice([1, 2, 4]))):
            st = {"op": "load", "s": r.randrange(2), "keep": r.random() < 0.3}
            x = r.random()
            if x < 0.30:
                st["fault"] = gen_fault(r, write=False)
            elif x < 0.50:
                st["interrupt"] = r.choice([1, 2, 5, 10, 30, 100, 200, 400, 800, 1600, 3000])
                st["exc"] = r.choice(["KeyboardInterrupt", "MemoryError"])
            elif x < 0.60:
                st["torn"] = r.random()
            elif x < 0.75:
                st["short"] = r.choice([1, 3, 10])
            steps.append(st)
            if r.random() < 0.25:
                steps.append({"op": "edit", "k": r.randrange(9), "e": ops.random_op(r)})
        if r.random() < 0.15:              # tiers of the same name in one file
            for s in specs if not twin else []:
                if s["via"] != "obj" and s["fmt"] != "json":
                    names = ["a", "b", "a_2", "speech", "Word"]
                    for g in s["groups"]:
                        g["tiers"] = [r.choice(names) for _ in g["tiers"]]
                    s["dup"] = True
        return {"ext": r.choice(["TextGrid", "TextGrid", "textgrid", "json", "txt", "tg.bak", ""]),
                "specs": specs, "steps": steps, "share_path": twin or r.random() < 0.5, "permute_sets": r.random() < 0.5}

    def shrinkers(self, plan):
        return [H.field("steps")] + H.spec_shrinkers(["specs", 0]) + H.spec_shrinkers(["specs", 1])

    def execute(self, plan, ctx):
        D.start(ctx, plan)
        cl = W.Classes()
        for s in plan["specs"]:
            for h in s["hiers"]:
                cl.get(h)
        snap = cl.snapshot()
        kept = []
        last = {}

        def path(k):
            return os.path.join(ctx.dir, ("in%d.%s" % (0 if plan["share_path"] else k, plan["ext"])).rstrip("."))
        for i, st in enumerate(plan["steps"]):
            if st["op"] == "edit":
                if kept:
                    sl = kept[st["k"] % len(kept)]
                    c = ops.OPS[st["e"]["op"]]
                    a = c.prep(sl.m, st["e"], sl.info)
                    if a is not None:
                        try:
                            c.real(sl.grid, a, sl.info)
                        except Exception as e:
                            raise Stop("operation failed: %s %r" % (c.name, e))
                        c.model(sl.m, a, sl.info)
                        if W.diff_model(sl, tol=1e-9):
                            raise Stop("grid differs from the model")
                        ctx.event("edit", st["e"]["op"], a)
                continue
            s = plan["specs"][st["s"]]
            p = path(st["s"])
            data = gen.render(s)
            if p in last and last[p] != st["s"]:
                ctx.fault("file replaced between loads")
                ctx.nontrivial = True
            last[p] = st["s"]
            disk.put(p, data)
            self.load_once(s, cl, p, data, st, ctx, kept)
            if cl.snapshot() != snap:
                raise Violation("a load changed classes of the caller", repr(st))
            for sl in kept:
                d = W.diff_model(sl, tol=1e-9)
                if d:
                    raise Violation("a load changed a grid loaded before", "%r: %s" % (st, d))
        for k, s in enumerate(plan["specs"]):
            p = path(k)
            disk.put(p, gen.render(s))
            self.load_once(s, cl, p, gen.render(s), {"op": "load", "s": k}, ctx, kept)

    def load_once(self, s, cl, p, data, st, ctx, kept):
        fired, err, grid = None, None, None
        given = []
        if "fault" in st and s["via"] != "obj":
            arm(st["fault"], len(data))
            try:
                grid = W.load(s, cl, p)
            except BaseException as e:      # noqa: B902
                err = e
            fired = disk.disarm()
            if fired:
                ctx.fault("load: " + fired)
        elif "interrupt" in st:
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[st["exc"]]
            grid, err, n, f = sched.interrupted(lambda: W.load(s, cl, p, keep=given), st["interrupt"], exc)
            if f:
                fired = "interrupt"
                ctx.fault("load: %s at a line" % st["exc"])
        elif "torn" in st and s["via"] != "obj":
            disk.put(p, data[:int(len(data) * st["torn"])])
            try:
                W.load(s, cl, p)
            except Exception:
                pass
            ctx.fault("load: torn file")
            ctx.nontrivial = True
            ctx.event("load", st)
            return
        else:
            if st.get("short"):
                disk.arm({"at": "short", "n": st["short"]})
            try:
                grid = W.load(s, cl, p, keep=given)
            except Exception as e:
                err = e
            if disk.disarm():
                ctx.fault("load: short reads")
        for tg in given:
            want = gen.tiers_of(s)
            if list(tg.tierNames) != [n for _, n, _, _ in want] or [
                    [list(e) for e in t.entries] for t in tg.tiers] != [es for _, _, _, es in want]:
                raise Violation("a load changed the TextGrid object it was given", repr(st))
        ctx.counts["load:" + s["via"]] += 1
        ctx.event("load", st, fired, err is not None)
        if fired:
            ctx.nontrivial = True
        if disk.raw_bytes(p) != data:
            raise Violation("a load changed its file", repr(st))
        if err is not None:
            if not fired:
                raise Violation("a load without any fault failed", "%s: %s; %s" % (type(err).__name__, err, st))
            return
        named = not s.get("dup")            # which of several equal names gets which suffix is the reader's choice
        d = O.same_tree(O.content(grid, names=named), M.content(M.from_spec(s), names=named), 1e-9)
        if not named and not d:
            want, got = [n for g in M.from_spec(s) for n in g["tiers"]], [t.name for G in grid for t in G]
            if len(set(got)) != len(got) or any(not b.startswith(a) for a, b in zip(want, got)):
                d = "tier names %r -> %r" % (want, got)
        if d:
            if fired:
                raise Violation("a load that met a fault returned a wrong grid", "%r: %s" % (st, d))
            raise Violation("a loaded grid is not what the file holds", "%r: %s" % (st, d))
        ctx.state(O.content(grid))
        if st.get("keep") and len(kept) < 3 and named:
            kept.append(W.Slot(s, cl, grid))


class C10(DurableCheck):
    ID = "C10"
    RUNS = (4200, 90000)
    RULE = ("a run = one seeded TextGrid, a seeded history, and pickle checkpoints at seeded points: the bytes are stored "
            "(sometimes torn), the process restarts (cloudpickle's class tracker is emptied; every 40th run a real new "
            "interpreter), the grid is restored and compared with the model in content, features, names, precedence, "
            "hierarchy and views, the original is shown to be independent of the copy, and the history goes on with the "
            "copy; non-trivial = an edit before a checkpoint and one after")
    STUBS = DISK_STUB + ["process restart: cloudpickle's class tracker is emptied; a sample of runs uses a real new process"]

    def generate(self, r, size):
        n = r.choice([3, 5, 8]) * (1 if not size else r.choice([1, 2, 4]))
        steps = D.gen_history(r, n, perturb=0.08, restart=0.0)
        for _ in range(r.choice([1, 2, 3])):
            s = {"op": "checkpoint", "switch": r.random() < 0.7, "torn": r.random() if r.random() < 0.15 else None,
                 "edit": ops.random_op(r), "fresh": r.random() < 0.012, "unpickler": r.choice(["pickle", "cloudpickle"])}
            k = r.randrange(len(steps) + 1)
            steps.insert(k, s)
            if r.random() < 0.35:          # what leans on the classes a grid remembers
                steps.insert(k + 1, ops.random_op(r, {"append_group": 3, "append_tier": 2, "interleave": 1, "concat": 1}))
        return {"spec": gen.spec(r), "steps": steps, "permute_sets": False}

    def execute(self, plan, ctx):
        h = self.history(ctx, plan)
        edits = 0
        for st in plan["steps"]:
            if st["op"] == "checkpoint":
                self.checkpoint(h, st, ctx)
                mid = edits
            elif h.slot.info.pickled:
                # on a restored copy: edits must still do what they promise
                try:
                    done = h.step(st)
                except D.OpFailed as e:
                    raise self.blame(h, st, "%s" % e, plan)
                if done and h.agrees():
                    raise self.blame(h, st, h.agrees(), plan)
                edits += bool(done and st["op"] in ops.OPS)
                ctx.nontrivial = ctx.nontrivial or edits > mid > 0
            elif self.run_step(h, st):
                edits += st["op"] in ops.OPS
            ctx.state(O.content(h.slot.grid))

    def blame(self, h, st, why, plan):
        """Only what the restored copy does wrong, and a never pickled grid does right, counts."""
        steps = [s for s in plan["steps"] if s["op"] != "checkpoint"]
        steps = steps[:steps.index(st) + 1]

        def alone():
            import tempfile
            from ..harness import Ctx
            c = Ctx(tempfile.mkdtemp(dir=h.ctx.dir))
            k = self.history(c, plan)
            k.slot.info.pickled = True
            for s in steps:
                k.step(s)
            return k.agrees()
        kind, val = H.isolate(alone)
        if kind == "ok" and not val:
            return Violation("a restored grid does not behave like the original: " + st["op"], str(why))
        return Stop("operation failed: " + str(why))

    def checkpoint(self, h, st, ctx):
        import cloudpickle
        import pickle
        s = h.slot
        ctx.event("checkpoint", st["switch"], st["torn"], st["fresh"])
        before = O.content(s.grid)
        errs = [O.precedence_errors(s.grid), O.hierarchy_errors(s.grid)]
        if errs != [[], []]:
            raise Stop("links were wrong before the checkpoint")
        try:
            data = cloudpickle.dumps(s.grid)
        except Exception as e:
            raise Violation("a grid cannot be pickled", "%s: %s" % (type(e).__name__, e))
        p = h.path("pkl")
        disk.put(p, data)
        D.restart_cloudpickle()
        if st["torn"] is not None:
            try:
                pickle.loads(disk.raw_bytes(p)[:int(len(data) * st["torn"])])
            except Exception:
                ctx.fault("torn pickle")
            D.restart_cloudpickle()
        try:
            copy = {"pickle": pickle, "cloudpickle": cloudpickle}[st["unpickler"]].loads(disk.raw_bytes(p))
        except Exception as e:
            raise Violation("a pickled grid cannot be restored", "%s: %s" % (type(e).__name__, e))
        ctx.fault("crash and restart from pickle")
        self.same(copy, s, before, "restored")
        if O.content(s.grid) != before:
            raise Violation("pickling changed the grid", "")
        if st["fresh"]:
            self.fresh(p, before, ctx)
        # the copy and the original are independent
        info = s.info.copy()
        info.pickled = True
        m2 = M.clone(s.m)
        c = ops.OPS[st["edit"]["op"]]
        a = c.prep(m2, st["edit"], info)
        if a is not None:
            try:
                c.real(copy, a, info)
                ok = True
            except Exception:
                ok = False
            if O.content(s.grid) != before or [O.precedence_errors(s.grid), O.hierarchy_errors(s.grid)] != errs:
                raise Violation("editing a restored copy changed the original", "%s %r" % (c.name, a))
            if ok:
                copy = pickle.loads(disk.raw_bytes(p))
        if st["switch"]:
            s.grid = copy if a is None else pickle.loads(disk.raw_bytes(p))
            s.info.pickled = True

    def same(self, g, s, before, what):
        try:
            got = O.content(g)
            d = O.same_tree(got, before, 0.0)
            if d:
                raise Violation("a restored grid differs", d)
            names = [x.name for x in g]
            want = [x.name for x in s.grid]
            if names != want:
                raise Violation("a restored grid differs", "group names %r != %r" % (names, want))
            e = O.precedence_errors(g) + O.hierarchy_errors(g)
            if e:
                raise Violation("a restored grid has wrong links", first(e))
            e = O.view_errors(g, times=(0.3,), df=False)
            if e and not O.view_errors(s.grid, times=(0.3,), df=False):
                raise Violation("a restored grid has wrong views", first(e))
        except Violation:
            raise
        except Exception as e:
            raise Violation("a restored grid cannot be read", "%s: %s" % (type(e).__name__, e))

    def fresh(self, p, before, ctx):
        """A real new interpreter."""
        import json
        import subprocess
        import sys
        code = ("import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True\n"
                "from sim import env; env.load()\n"
                "import pickle, json\n"
                "from sim import observe as O\n"
                "g = pickle.load(open(%r, 'rb'))\n"
                "print('@@' + json.dumps([O.content(g), O.precedence_errors(g), O.hierarchy_errors(g)]))\n" % (H.VERIF, p))
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300)
        ctx.fault("real new process")
        line = [x for x in r.stdout.splitlines() if x.startswith("@@")]
        if r.returncode or not line:
            raise Violation("a pickled grid cannot be restored in a new process", r.stderr[-1500:])
        got = json.loads(line[0][2:])
        want = json.loads(json.dumps(before))
        d = O.same_tree(got[0], want, 0.0)
        if d or got[1] or got[2]:
            raise Violation("a grid restored in a new process differs", str(d or got[1:]))
