"""Reading a grid through its public API, and the invariants on what is read.

Nothing here looks at private attributes, exception types or warning texts.
"""
import numpy as np

MISSING = object()


def is_points(group):
    from aligned_textgrid import PointsGroup
    return isinstance(group, PointsGroup)


def _f(x):
    return None if x is None else float(x)


def content(grid, feats=True, names=True, feat_names=("acoustic", "note", "f0")):
    """Same canonical form as model.content(), read by descending subset lists."""
    def fs(x):
        out = {}
        for f in feat_names:
            v = getattr(x, f, MISSING)
            if v is not MISSING:
                out[f] = v
        return sorted(out.items())

    def node(x):
        out = [_f(x.start), _f(x.end), x.label, [node(k) for k in x.subset_list]]
        if feats:
            out.append(fs(x))
        return out
    res = []
    for g in grid:
        d = {"kind": "P" if is_points(g) else "I", "cls": [c.__name__ for c in g.entry_classes]}
        if names:
            d["tiers"] = [t.name for t in g]
        if d["kind"] == "I":
            d["tree"] = [node(x) for x in g[0]]
        else:
            d["pts"] = [[[_f(p.time), p.label] + ([fs(p)] if feats else []) for p in t] for t in g]
        res.append(d)
    return res


def tier_content(grid):
    """Every tier read as a flat list."""
    out = []
    for g in grid:
        pts = is_points(g)
        for t in g:
            if pts:
                out.append([[_f(x.time), x.label] for x in t])
            else:
                out.append([[_f(x.start), _f(x.end), x.label] for x in t])
    return out


def same_tree(a, b, tol=0.0):
    """None if equal, else a short description of the first difference."""
    def cmp(x, y, path):
        if isinstance(x, float) or isinstance(y, float):
            if x is None or y is None or isinstance(x, (str, list)) or isinstance(y, (str, list)):
                return "%s: %r != %r" % (path, x, y)
            if abs(x - y) > tol:
                return "%s: %r != %r" % (path, x, y)
            return None
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            if len(x) != len(y):
                return "%s: %d entries != %d: %.300r != %.300r" % (path, len(x), len(y), x, y)
            for i, (p, q) in enumerate(zip(x, y)):
                d = cmp(p, q, "%s[%d]" % (path, i))
                if d:
                    return d
            return None
        if isinstance(x, dict) and isinstance(y, dict):
            if sorted(x) != sorted(y):
                return "%s: keys %r != %r" % (path, sorted(x), sorted(y))
            for k in sorted(x):
                d = cmp(x[k], y[k], "%s.%s" % (path, k))
                if d:
                    return d
            return None
        if x != y:
            return "%s: %r != %r" % (path, x, y)
        return None
    return cmp(a, b, "")


class Loose(list):
    """Groups that are in no grid."""


def edge(x):
    return x is not None and x.label == "#"


def _who(gi, ti, i, x):
    return "group %d tier %d entry %d %r" % (gi, ti, i, x.label)


def precedence_errors(grid):
    """C06: prev/fol are the neighbours inside the parent, '#' exactly at its ends."""
    errs = []
    for gi, g in enumerate(grid):
        pts = is_points(g)
        for ti, t in enumerate(g):
            L = list(t)
            if pts or ti == 0:
                fams = [L]
            else:
                fams = [list(u.subset_list) for u in g[ti - 1]]
            n = 0
            for k in fams:
                times = [x.time if pts else x.start for x in k]
                if any(a > b for a, b in zip(times, times[1:])):
                    errs.append("group %d tier %d: siblings out of time order %r" % (gi, ti, times))
                for i, x in enumerate(k):
                    who = _who(gi, ti, n, x)
                    n += 1
                    if i == 0:
                        if not edge(x.prev):
                            errs.append("%s: first in its parent but prev is %r" % (who, getattr(x.prev, "label", None)))
                    elif x.prev is not k[i - 1]:
                        errs.append("%s: prev is %r, expected %r" % (who, getattr(x.prev, "label", None), k[i - 1].label))
                    if i == len(k) - 1:
                        if not edge(x.fol):
                            errs.append("%s: last in its parent but fol is %r" % (who, getattr(x.fol, "label", None)))
                    elif x.fol is not k[i + 1]:
                        errs.append("%s: fol is %r, expected %r" % (who, getattr(x.fol, "label", None), k[i + 1].label))
            # walking the whole tier by relative position
            for i, x in enumerate(L):
                if x.tier_index != i:
                    errs.append("%s: tier_index is %r" % (_who(gi, ti, i, x), x.tier_index))
                    continue
                for k in (-(i + 1), len(L) - i, -(i + 2), -2, 2):
                    try:
                        y = x.get_tierwise(k)
                    except Exception:
                        y = None
                    if y is not (L[i + k] if 0 <= i + k < len(L) else None):
                        errs.append("%s: get_tierwise(%d) is not the entry there" % (_who(gi, ti, i, x), k))
                if x.get_tierwise(0) is not x:
                    errs.append("%s: get_tierwise(0) is another entry" % _who(gi, ti, i, x))
                if i + 1 < len(L) and x.get_tierwise(1) is not L[i + 1]:
                    errs.append("%s: get_tierwise(1) is not the next entry" % _who(gi, ti, i, x))
                if i > 0 and x.get_tierwise(-1) is not L[i - 1]:
                    errs.append("%s: get_tierwise(-1) is not the previous entry" % _who(gi, ti, i, x))
            if L:
                if t.first is not L[0] or t.last is not L[-1]:
                    errs.append("group %d tier %d: first/last are not the ends of the tier" % (gi, ti))
            if errs and len(errs) > 8:
                return errs
        if not pts:
            for ti, t in enumerate(g):
                for i, u in enumerate(t):
                    k = list(u.subset_list)
                    if k and (u.first is not k[0] or u.last is not k[-1]):
                        errs.append("%s: first/last are not the ends of its subset list" % _who(gi, ti, i, u))
    return errs


def _elsewhere(grid, g, c):
    """The class is a level that this group does not have, but another group of the grid has."""
    return any(t.entry_class is c for o in grid if o is not g for t in o) and all(t.entry_class is not c for t in g)


def hierarchy_errors(grid):
    """C07: parent, containment, tier membership, class chain, path and id agree."""
    from aligned_textgrid.sequences.sequences import Top, Bottom
    errs = []
    groups = list(grid)
    loose = isinstance(grid, Loose)
    if not loose and [id(x) for x in grid.contains] != [id(x) for x in groups]:
        errs.append("grid.contains is not the list of its groups")
    for gi, g in enumerate(groups):
        root = [] if loose else [gi]
        if g.within is not (None if loose else grid):
            errs.append("group %d: within is not the grid" % gi)
        if g.within_path != root or g.id != "-".join(map(str, root)):
            errs.append("group %d: path %r id %r" % (gi, g.within_path, g.id))
        pts = is_points(g)
        tiers = list(g)
        if [id(x) for x in g.contains] != [id(x) for x in tiers]:
            errs.append("group %d: contains is not the list of its tiers" % gi)
        for ti, t in enumerate(tiers):
            L = list(t)
            if t.within is not g:
                errs.append("group %d tier %d: within is not its group" % (gi, ti))
            if t.within_path != root + [ti] or t.id != "-".join(map(str, root + [ti])):
                errs.append("group %d tier %d: path %r id %r" % (gi, ti, t.within_path, t.id))
            cl = t.entry_class
            if not pts:
                up, dn = cl.superset_class, cl.subset_class
                if ti == 0:
                    if not issubclass(up, Top) and not _elsewhere(grid, g, up):
                        errs.append("group %d tier 0: %s is not top of its class hierarchy" % (gi, cl.__name__))
                elif up is not tiers[ti - 1].entry_class:
                    errs.append("group %d tier %d: superset class %s is not the tier above" % (gi, ti, up.__name__))
                if ti == len(tiers) - 1:
                    if not issubclass(dn, Bottom) and not _elsewhere(grid, g, dn):
                        errs.append("group %d tier %d: %s is not bottom of its class hierarchy" % (gi, ti, cl.__name__))
                elif dn is not tiers[ti + 1].entry_class:
                    errs.append("group %d tier %d: subset class %s is not the tier below" % (gi, ti, dn.__name__))
                if t.superset_class is not up or t.subset_class is not dn:
                    errs.append("group %d tier %d: tier's own superset/subset class differ from its entry class" % (gi, ti))
            for i, x in enumerate(L):
                if x.intier is not t:
                    errs.append("%s: intier is not its tier" % _who(gi, ti, i, x))
                if type(x) is not cl:
                    errs.append("%s: class %s is not the tier's entry class" % (_who(gi, ti, i, x), type(x).__name__))
            if pts or ti == 0:
                fams = [(t, L)]
                if [id(x) for x in t.contains] != [id(x) for x in L]:
                    errs.append("group %d tier %d: contains is not its entries" % (gi, ti))
            else:
                fams = []
                for u in tiers[ti - 1]:
                    fams.append((u, list(u.subset_list)))
                flat = [x for _, k in fams for x in k]
                if [id(x) for x in flat] != [id(x) for x in L]:
                    errs.append("group %d tier %d: entries of the tier are not the children of the tier above: %r != %r" % (
                        gi, ti, [x.label for x in L], [x.label for x in flat]))
                    return errs
                for u, k in fams:
                    if [id(x) for x in u.contains] != [id(x) for x in k]:
                        errs.append("group %d tier %d: contains of %r differs from its subset list" % (gi, ti - 1, u.label))
            n = 0
            for p, k in fams:
                for i, x in enumerate(k):
                    who = _who(gi, ti, n, x)
                    n += 1
                    if x.within is not p:
                        errs.append("%s: within is %r" % (who, x.within))
                    if not pts:
                        want = p if ti else None
                        if x.super_instance is not want:
                            errs.append("%s: super_instance is %r" % (who, x.super_instance))
                    path = x.within_path
                    o = g if loose else grid
                    try:
                        for j in path:
                            o = o.contains[j]
                    except Exception as e:
                        o = e
                    if o is not x:
                        errs.append("%s: path %r does not lead back to it" % (who, path))
                    if x.id != "-".join(map(str, path)):
                        errs.append("%s: id %r is not its path %r" % (who, x.id, path))
                    if x.within_index != i:
                        errs.append("%s: within_index %r is not %d" % (who, x.within_index, i))
            if not pts and ti == len(tiers) - 1:
                for i, x in enumerate(L):
                    if len(x.subset_list) or len(x.contains):
                        errs.append("%s: bottom entry has children" % _who(gi, ti, i, x))
            if len(errs) > 8:
                return errs
    ids = {}
    for gi, g in enumerate(groups):
        if loose:
            ids = {}
        for ti, t in enumerate(g):
            for i, x in enumerate(t):
                if x.id in ids:
                    errs.append("id %r is shared by two entries" % x.id)
                ids[x.id] = 1
    return errs


def chain_errors(grid):
    """C11: the classes of a group's tiers form one chain, top to bottom, and are found by name."""
    from aligned_textgrid.sequences.sequences import Top, Bottom
    errs = []
    for gi, g in enumerate(grid):
        cl = [t.entry_class for t in g]
        if list(g.entry_classes) != cl or list(grid.entry_classes[gi]) != cl:
            errs.append("group %d: entry_classes is not the list of its tiers' classes" % gi)
        for ti, t in enumerate(g):
            for i, x in enumerate(t):
                if type(x) is not cl[ti]:
                    errs.append("%s: class %s is not its tier's" % (_who(gi, ti, i, x), type(x).__name__))
            if is_points(g):
                continue
            up, dn = cl[ti].superset_class, cl[ti].subset_class
            if (not issubclass(up, Top) and not _elsewhere(grid, g, up)) if ti == 0 else (up is not cl[ti - 1]):
                errs.append("group %d tier %d: superset class is %s" % (gi, ti, up.__name__))
            if (not issubclass(dn, Bottom) and not _elsewhere(grid, g, dn)) if ti == len(cl) - 1 else (dn is not cl[ti + 1]):
                errs.append("group %d tier %d: subset class is %s" % (gi, ti, dn.__name__))
            if t.superset_class is not up or t.subset_class is not dn:
                errs.append("group %d tier %d: tier's own superset/subset class" % (gi, ti))
        for c in cl:
            if grid.get_class_by_name(c.__name__) is not c:
                errs.append("get_class_by_name(%r) is another class" % c.__name__)
    if grid.get_class_by_name("NoSuchClass") is not None:
        errs.append("get_class_by_name finds a class that is not there")
    return errs[:8]


def accessor_errors(grid, renamed=False):
    """C11: tiers and groups reached by name are the current ones."""
    errs = []
    names = [None if renamed else g.name for g in grid]
    for gi, g in enumerate(grid):
        cn = [c.__name__ for c in g.entry_classes]
        if len(set(cn)) == len(cn):
            for j, n in enumerate(cn):
                if getattr(g, n, None) is not g[j]:
                    errs.append("group %d: .%s is not its tier %d" % (gi, n, j))
        if len(set(names)) == len(names) and not renamed and g.name and g.name.isidentifier():
            if getattr(grid, g.name, None) is not g:
                errs.append("grid.%s is not group %d" % (g.name, gi))
        if [t.name for t in g] != list(getattr(g, "tier_names", [t.name for t in g])):
            errs.append("group %d: tier_names" % gi)
    return errs


def _arr(x):
    return [float(v) for v in x]


def near(a, b):
    """Equal up to rounding, for quantities that are computed."""
    if a is None or b is None:
        return a is b
    return abs(float(a) - float(b)) <= 1e-9


def validity_errors(grid, at):
    """validate() says False on entries whose children do not fit; each misfit is put right again."""
    errs = []
    d = 0.001
    for gi, g in enumerate(grid):
        if is_points(g):
            continue
        for ti, t in enumerate(g[j] for j in range(len(g) - 1)):
            if not len(t):
                continue
            x = t[at % len(t)]
            k = list(x.subset_list)
            if not k or x.validate() is not True:
                continue
            tries = [(x, "start", d), (x, "start", -d), (x, "end", d), (x, "end", -d), (k[0], "start", d), (k[-1], "end", -d)]
            if len(k) > 1:
                j = at % (len(k) - 1)
                tries += [(k[j], "end", -d), (k[j + 1], "start", d), (k[j], "end", d)]
            for o, f, by in tries:
                was = getattr(o, f)
                setattr(o, f, was + by)
                try:
                    ok = x.validate()
                finally:
                    setattr(o, f, was)
                if ok is not False:
                    errs.append("%s: validate() is %r although the %s of %s is %g s off" % (
                        _who(gi, ti, at % len(t), x), ok, f, "the entry" if o is x else "a child", by))
            if x.validate() is not True:
                errs.append("%s: validate() is not True any more" % _who(gi, ti, at % len(t), x))
    return errs


def unfit(grid, picks):
    """Shorten a few entries so that gaps appear; gives the undo."""
    was = []
    for g, t, i, side in picks:
        G = grid[g % len(grid)]
        if is_points(G):
            continue
        T = G[t % len(G)]
        if not len(T):
            continue
        x = T[i % len(T)]
        by = (x.end - x.start) * 0.25
        f = "start" if side else "end"
        was.append((x, f, getattr(x, f)))
        setattr(x, f, getattr(x, f) + (by if side else -by))

    def undo():
        for x, f, v in reversed(was):
            setattr(x, f, v)
    return undo


def gen_unfit(r):
    return [[r.randrange(9), r.randrange(9), r.randrange(99), r.randrange(2)] for _ in range(r.choice([1, 1, 2]))]


def view_errors(grid, times=(), df=True):
    """C12: every derived view equals what reading the entries one by one gives."""
    errs = []

    def E(*a):
        errs.append(" ".join(str(x) for x in a))
    allmin, allmax = [], []
    for gi, g in enumerate(grid):
        pts = is_points(g)
        gmin, gmax = [], []
        for ti, t in enumerate(g):
            L = list(t)
            w = "group %d tier %d" % (gi, ti)
            if len(t) != len(L):
                E(w, "len")
            if list(t.labels) != [x.label for x in L]:
                E(w, "labels")
            if any(x not in t or t.index(x) != i or t[i] is not x for i, x in enumerate(L)):
                E(w, "finding its entries")
            if [id(x) for x in t.sequence_list] != [id(x) for x in L]:
                E(w, "sequence_list")
            if pts:
                ts = [float(x.time) for x in L]
                if _arr(t.times) != ts:
                    E(w, "times")
                s = e = ts
                errs += point_errors(grid, t, L, w, times)
            else:
                s = [float(x.start) for x in L]
                e = [float(x.end) for x in L]
                if _arr(t.starts) != s:
                    E(w, "starts")
                if _arr(t.ends) != e:
                    E(w, "ends")
                for tm in times:
                    a, b = t.get_interval_at_time(tm), [i for i in range(len(L)) if s[i] <= tm < e[i]]
                    if (None if a is None else int(a)) != (b[0] if b else None):
                        E(w, "get_interval_at_time", tm, "gave", a)
                for i, x in enumerate(L):
                    k = list(x.subset_list)
                    if not k or (s[i] == k[0].start and e[i] == k[-1].end and all(
                            p.end == q.start for p, q in zip(k, k[1:]))):
                        if x.validate() is not True:
                            E(w, "validate() of a tight interval", repr(x.label))
                    if tuple(x.return_interval()) != (x.start, x.end, x.label) or \
                       tuple(x.return_praatio()) != (x.start, x.end, x.label):
                        E(w, "return_interval of", repr(x.label))
                    if hasattr(x, "phones") and (list(x.phones) != [q.label for q in k]
                                                 or [id(q) for q in x.phone_list] != [id(q) for q in k]):
                        E(w, "phones of", repr(x.label))
                    if hasattr(x, "inword") and x.inword is not x.super_instance:
                        E(w, "inword of", repr(x.label))
                    if any(q not in x or x.index(q) != j or x[j] is not q for j, q in enumerate(k)):
                        E(w, "finding the children of", repr(x.label))
                    if not near(x.duration, float(x.end) - float(x.start)):
                        E(w, "duration of", repr(x.label))
                    if [id(q) for q in x] != [id(q) for q in k] or len(x) != len(k):
                        E(w, "iterating", repr(x.label))
                    if _arr(x.sub_starts) != [float(q.start) for q in k] or _arr(x.sub_ends) != [float(q.end) for q in k] \
                       or list(x.sub_labels) != [q.label for q in k]:
                        E(w, "sub_starts/sub_ends/sub_labels of", repr(x.label))
            if L:
                if float(t.xmin) != min(s) or float(t.xmax) != max(e):
                    E(w, "xmin/xmax", t.xmin, t.xmax)
                gmin.append(min(s))
                gmax.append(max(e))
            elif t.xmin is not None or t.xmax is not None:
                E(w, "has times although it is empty")
            pt = t.return_tier()
            got = [tuple(x) for x in pt.entries]
            want = [(a, x.label.strip()) if pts else (a, b, x.label.strip()) for a, b, x in zip(s, e, L)]
            if [tuple(float(v) for v in x[:-1]) + (x[-1].strip(),) for x in got] != want:
                E(w, "return_tier", got, want)
            if pt.name != t.name:
                E(w, "return_tier name")
        if gmin:
            if float(g.xmin) != min(gmin) or float(g.xmax) != max(gmax):
                E("group", gi, "xmin/xmax", g.xmin, g.xmax, "expected", min(gmin), max(gmax))
            allmin.append(min(gmin))
            allmax.append(max(gmax))
        elif g.xmin is not None or g.xmax is not None:
            E("group", gi, "has times although it is empty")
        if list(g.tier_names) != [t.name for t in g] or len(g) != len(list(g)):
            E("group", gi, "tier_names or length")
        last = [len(t) - 1 for t in g]
        if all(len(t) for t in g) and [id(x) for x in g[last]] != [id(t[-1]) for t in g]:
            E("group", gi, "indexing with a list")
        if g[-1] is not list(g)[-1]:
            E("group", gi, "indexing from the end")
        for tm in times:
            got = list(g.get_intervals_at_time(tm))
            for ti, t in enumerate(g):
                if not len(t):
                    ok = got[ti] is None
                elif pts:
                    d = [abs(float(x.time) - tm) for x in t]
                    ok = d[int(got[ti])] == min(d)
                else:
                    want = [i for i, x in enumerate(t) if x.start <= tm < x.end]
                    want = want[0] if want else None
                    ok = (got[ti] is None and want is None) or (got[ti] is not None and want is not None and int(got[ti]) == want)
                if not ok:
                    E("group", gi, "tier", ti, "lookup at", tm, "gave", got[ti])
    if float(grid.xmin) != min(allmin) or float(grid.xmax) != max(allmax):
        E("grid xmin/xmax", grid.xmin, grid.xmax)
    for k in (0, -1):
        if [id(x) for x in grid[[k] * len(grid)]] != [id(list(g)[k]) for g in grid]:
            E("grid indexed with a list")
    if grid[-1] is not list(grid)[-1] or len(grid) != len(list(grid)):
        E("grid indexed from the end, or its length")
    if [list(x) for x in grid.tier_names] != [[t.name for t in g] for g in grid]:
        E("grid tier_names")
    if [[c.__name__ for c in x] for x in grid.entry_classes] != [[t.entry_class.__name__ for t in g] for g in grid]:
        E("grid entry_classes")
    for tm in times:
        if not _same_lookup(grid.get_intervals_at_time(tm), [g.get_intervals_at_time(tm) for g in grid]):
            E("grid lookup at", tm)
    errs += textgrid_errors(grid)
    if df and not errs:
        errs += df_errors(grid)
    return errs


def _same_lookup(a, b):
    return [[None if v is None else int(v) for v in x] for x in a] == [[None if v is None else int(v) for v in x] for x in b]


def point_errors(grid, t, L, w, times):
    """Distances and lookups of points."""
    errs = []
    ts = [float(x.time) for x in L]
    for tm in times:
        if not ts:
            if t.get_nearest_point_index(tm) is not None or t.get_nearest_point(tm) is not None:
                errs.append("%s has a nearest point although it is empty" % w)
            continue
        d = [abs(v - tm) for v in ts]
        i = int(t.get_nearest_point_index(tm))
        if d[i] != min(d):
            errs.append("%s get_nearest_point_index %r gave %r" % (w, tm, i))
        p = t.get_nearest_point(tm)
        if abs(float(p.time) - tm) != min(d) or not any(p is x for x in L):
            errs.append("%s get_nearest_point %r" % (w, tm))
    it = next((q for g in grid if not is_points(g) for q in g if len(q)), None)
    for i, x in enumerate(L):
        if tuple(x.return_point()) != (x.time, x.label) or tuple(x.return_praatio()) != (x.time, x.label):
            errs.append("%s return_point of %r" % (w, x.label))
        a, b = x.prev_distance, x.fol_distance
        wa = None if i == 0 else ts[i - 1] - ts[i]
        wb = None if i + 1 == len(L) else ts[i + 1] - ts[i]
        if not near(a, wa) or not near(b, wb):
            errs.append("%s distances of %r: %r %r expected %r %r" % (w, x.label, a, b, wa, wb))
        if not near(x.distance_from(L[0]), ts[i] - ts[0]):
            errs.append("%s distance_from of %r" % (w, x.label))
        if it is not None:
            q = it[i % len(it)]
            if not all(near(a, b) for a, b in zip(x.distance_from(q), [ts[i] - float(q.start), ts[i] - float(q.end)])):
                errs.append("%s distance_from an interval of %r" % (w, x.label))
            want = [j for j, y in enumerate(it) if y.start <= ts[i] < y.end]
            k = x.get_interval_index_at_time(it)
            if (None if k is None else int(k)) != (want[0] if want else None):
                errs.append("%s get_interval_index_at_time of %r: %r" % (w, x.label, k))
            if x.get_interval_at_point(it) is not (it[want[0]] if want else None):
                errs.append("%s get_interval_at_point of %r" % (w, x.label))
    return errs[:6]


def textgrid_errors(grid):
    errs = []
    tg = grid.return_textgrid()
    flat = [(g, t) for g in grid for t in g]
    if len(tg.tiers) != len(flat):
        return ["return_textgrid has %d tiers, grid has %d" % (len(tg.tiers), len(flat))]
    if len(set(tg.tierNames)) != len(flat):
        errs.append("return_textgrid names are not distinct")
    seen = set()
    for pt, (g, t) in zip(tg.tiers, flat):
        pts = is_points(g)
        got = [tuple(float(v) for v in x[:-1]) + (x[-1].strip(),) for x in pt.entries]
        want = [(float(x.time), x.label.strip()) if pts else (float(x.start), float(x.end), x.label.strip()) for x in t]
        if got != want:
            errs.append("return_textgrid tier %r differs: %r != %r" % (pt.name, got, want))
        if t.name not in seen and pt.name != t.name and t.name not in tg.tierNames:
            errs.append("return_textgrid renamed tier %r to %r" % (t.name, pt.name))
        if not pt.name.startswith(t.name):
            errs.append("return_textgrid tier %r named %r" % (t.name, pt.name))
        seen.add(t.name)
    return errs


def _rows(df):
    return df.to_dicts()


def df_errors(grid):
    from aligned_textgrid.outputs.to_dataframe import to_df
    errs = []
    # long form: one row per entry of every tier
    want = []
    for g in grid:
        pts = is_points(g)
        for t in g:
            for i, x in enumerate(t):
                want.append((x.id, i, x.label, float(x.time if pts else x.start), None if pts else float(x.end),
                             type(x).__name__))
    rows = _rows(to_df(grid, with_subset=False))
    got = []
    for r in rows:
        end = r.get("end")
        got.append((r["id"], r["tier_index"], r["label"], float(r["start"]), None if end is None else float(end),
                    r["entry_class"]))
    if got != want:
        errs.append("to_df(with_subset=False) differs: %r" % (same_tree(got, want),))
    # parts of a grid give the same rows as the whole
    at = 0
    for gi, g in enumerate(grid):
        ids = [x.id for t in g for x in t]
        if (gi + len(rows)) % 3 == 0:
            part = _rows(to_df(g, with_subset=False))
            if [r["id"] for r in part] != ids or [r["label"] for r in part] != [x.label for t in g for x in t] or any(
                    r["name"] != g.name for r in part):
                errs.append("to_df of group %d differs" % gi)
            t = g[-1]
            part = _rows(to_df(t, with_subset=False))
            if [(r["id"], r["label"], float(r["start"])) for r in part] != [(x.id, x.label, float(x.start)) for x in t]:
                errs.append("to_df of the last tier of group %d differs" % gi)
            x = next((t[-1] for t in g if len(t)), None)
            if x is None:
                continue
            part = _rows(to_df(x, with_subset=False))
            if [(r["id"], r["label"], float(r["start"])) for r in part] != [(x.id, x.label, float(x.start))]:
                errs.append("to_df of an entry of group %d differs" % gi)
        names = [r["name"] for r in rows[at:at + len(ids)]]
        at += len(ids)
        if any(n != g.name for n in names):
            errs.append("to_df: group name %r given as %r" % (g.name, names[:1]))
    # wide form: one row per bottom entry, ancestors repeated
    n = 0
    for g in grid:
        n += sum(len(t) for t in g) if is_points(g) else len(g[-1])
    wide = _rows(to_df(grid, with_subset=True))
    if len(wide) != n:
        errs.append("to_df(with_subset=True) has %d rows, expected %d" % (len(wide), n))
        return errs
    at = 0
    for g in grid:
        if is_points(g):
            for t in g:
                for i, x in enumerate(t):
                    r = wide[at]
                    at += 1
                    if (r["id"], r["tier_index"], r["label"], float(r["start"])) != (x.id, i, x.label, float(x.time)):
                        errs.append("to_df(with_subset=True) point row %r" % (r,))
            continue
        for x in g[-1]:
            r = wide[at]
            at += 1
            y = x
            while y is not None:
                c = type(y).__name__
                if (r.get(c + "_id"), r.get(c + "_label"), r.get(c + "_tier_index")) != (y.id, y.label, y.tier_index) \
                   or float(r[c + "_start"]) != float(y.start) or float(r[c + "_end"]) != float(y.end):
                    errs.append("to_df(with_subset=True) row for %r: level %s" % (x.id, c))
                if r["name"] != g.name:
                    errs.append("to_df(with_subset=True) row for %r: group name %r" % (x.id, r["name"]))
                y = y.super_instance
    return errs[:6]
