"""Edits the library must refuse: each raises, and nothing changes.

``build(hist, st)`` returns (call, others, show) or None when the kind does not
apply to the grid as it is now; ``others()`` reads the other participants.
"""
import os

from . import disk, gen, model as M, observe as O, ops


class CallbackFailed(Exception):
    pass


def _ig(m):
    return [i for i, g in enumerate(m) if g["kind"] == "I" and g["tree"]]


def _pg(m):
    return [i for i, g in enumerate(m) if g["kind"] == "P"]


def _ti(m, st, pts=False):
    """A group, tier and entry index."""
    gs = _pg(m) if pts else _ig(m)
    if not gs:
        return None
    g = gs[st["g"] % len(gs)]
    t = st["t"] % len(m[g]["cls"])
    n = len(m[g]["pts"][t]) if pts else len(M.level(m[g], t))
    if not n:
        return None
    return g, t, st["i"] % n


def alien(hist, name="Alien"):
    """A class that belongs to no hierarchy of the grid, even if it shares the name."""
    from aligned_textgrid import custom_classes
    return custom_classes([name])[0]


def namesake(hist, st, g, t):
    """A class that only shares the name with the one of tier t, if there is one."""
    cls = hist.slot.m[g]["cls"]
    if not 0 <= t < len(cls) or cls[t] == "SequenceInterval" or st["i"] % 2:
        return alien(hist)
    return alien(hist, cls[t])


def alien_point(hist):
    from aligned_textgrid import custom_classes
    return custom_classes(["AlienPoint"], points=[0])[0]


class Same:
    """Equal only to the same object; shown without its address."""

    def __init__(self, o):
        self.o = o

    def __eq__(self, other):
        return isinstance(other, Same) and other.o is self.o

    def __repr__(self):
        return getattr(self.o, "__name__", None) or "<%s %s>" % (type(self.o).__name__, getattr(self.o, "label", ""))


def _tag(o):
    return None if o is None else Same(o)


def _links(x):
    """What an entry is tied to; the marker entries at an edge may be made anew."""
    out = [_tag(type(x)), _tag(x.intier), _tag(x.within)]
    for y in (x.prev, x.fol):
        out.append("#" if y is None or y.label == "#" else _tag(y))
    return out


def _entry(x):
    if hasattr(x, "time"):
        return [x.time, x.label] + _links(x)
    return [x.start, x.end, x.label] + _links(x) + [_tag(x.super_instance), [_entry(k) for k in x.subset_list]]


def _grp(g):
    out = []
    for t in g:
        out.append([t.name, _tag(t.entry_class), _tag(t.within)] + [_entry(x) for x in t])
    return out + [g.name, _tag(g.within)]


def stranger(hist, st):
    """An entry that lives in a group of its own, of classes unknown to the grid, with parent, children and neighbours."""
    o = other_group(hist, st, 3)
    x = o[1][st["v"] % 2]
    return x, (lambda: _grp(o))


def k_fuse_edge(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, _ = p
    ends, n = [], 0
    for _, sibs in M.families(s.m[g], t):
        ends.append(n if st["d"] < 0 else n + len(sibs) - 1)
        n += len(sibs)
    i = ends[st["i"] % len(ends)]
    x = s.grid[g][t][i]
    f = x.fuse_rightwards if st["d"] > 0 else x.fuse_leftwards
    return (lambda: f()), (lambda: None), [g, t, i, st["d"]]


def k_fuse_callback(hist, st):
    s = hist.slot
    a = ops.OPS["fuse"].prep(s.m, {"g": st["g"], "t": st["t"], "i": st["i"], "d": st["d"], "fn": "plus"}, s.info)
    if a is None:
        return None
    x = s.grid[a["g"]][a["t"]][a["i"]]

    def boom(p, q):
        raise CallbackFailed("label_fun")
    f = x.fuse_rightwards if st["d"] > 0 else x.fuse_leftwards
    return (lambda: f(boom)), (lambda: None), [a["g"], a["t"], a["i"], st["d"]]


def k_tier_append_class(hist, st):
    """An entry of another level (or of no level) appended to a tier."""
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, _ = p
    G = s.grid[g]
    hi = M.gbounds(s.m[g])[1]
    other = [j for j in range(len(G)) if j != t]
    how = st["v"] % 5
    if how == 0:
        x, look = stranger(hist, st)
        return (lambda: G[t].append(x)), look, [g, t, "stranger"]
    if how == 1:
        x = alien_point(hist)((hi, "new"))
        return (lambda: G[t].append(x)), (lambda: _entry(x)), [g, t, "point"]
    if other and how == 2:             # an entry of another level of this group
        L = G[other[st["d"] % len(other)]]
        x = L[st["i"] % len(L)]
        return (lambda: G[t].append(x)), (lambda: _entry(x)), [g, t, "own"]
    c = G[other[st["v"] % len(other)]].entry_class if other and how == 3 else namesake(hist, st, g, t)
    x = c((hi, hi + 1.0, "new"))
    return (lambda: G[t].append(x)), (lambda: _entry(x)), [g, t, c.__name__]


def k_tier_append_junk(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    G = s.grid[g]
    junk = [(90.0, 91.0, "x"), "word", None, G, G[0]][st["v"] % 5]
    return (lambda: G[t].append(junk)), (lambda: None), [g, t, st["v"] % 5]


def k_point_append_class(hist, st):
    s = hist.slot
    p = _ti(s.m, st, pts=True)
    if p is None:
        return None
    g, t, i = p
    x = alien_point(hist)(((M.gbounds(s.m[g])[1] or 0) + 1.0, "new"))
    if s.m[g]["cls"][t] == "SequencePoint":
        return None           # the base class: every point class is related to it
    T = s.grid[g][t]
    if st["v"] % 3 == 0:
        x = alien(hist)((1.0, 2.0, "new"))
    return (lambda: T.append(x)), (lambda: _entry(x)), [g, t, type(x).__name__]


def k_entry_append(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    x = s.grid[g][t][i]
    G = s.grid[g]
    bad = [c for j, c in enumerate(G.entry_classes) if j != t + 1]
    how = st["v"] % 4
    if how == 0:
        y, look = stranger(hist, st)
        return (lambda: x.append(y)), look, [g, t, i, "stranger"]
    if how == 1:                       # an entry of a wrong level of this group
        j = [j for j in range(len(G)) if j != t + 1][st["d"]  % len(bad)]
        y = G[j][st["v"] % len(G[j])]
        return (lambda: x.append(y)), (lambda: _entry(y)), [g, t, i, "own", j]
    c = bad[st["v"] % len(bad)] if how == 2 and bad else namesake(hist, st, g, t + 1)
    y = c((x.start, x.end, "new"))
    return (lambda: x.append(y)), (lambda: _entry(y)), [g, t, i, c.__name__]


def k_set_super(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    G = s.grid[g]
    x = G[t][i]
    bad = [j for j in range(len(G)) if j != t - 1]
    look = None
    if bad and st["v"] % 3 == 1:
        y = G[bad[st["v"] % len(bad)]][0]
    elif st["v"] % 3 == 2:
        y, look = stranger(hist, st)
    else:
        y = namesake(hist, st, g, t - 1)((x.start, x.end, "new"))
    return (lambda: x.set_super_instance(y)), look or (lambda: _entry(y)), [g, t, i, type(y).__name__]


def k_set_subset(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    x = s.grid[g][t][i]
    al = namesake(hist, st, g, t + 1)((x.start, x.end, "new"))
    look = (lambda: _entry(al))
    if st["d"] > 0:
        if st["v"] % 3:
            al, look = stranger(hist, st)
        else:
            G = s.grid[g]
            bad = [j for j in range(len(G)) if j != t + 1]
            L = G[bad[st["v"] % len(bad)]]
            al = L[st["v"] % len(L)]
    own = list(x.subset_list)
    how = st["v"] % 5
    if how == 0:
        return (lambda: x.set_subset_list([al])), look, [g, t, i, how]
    if how == 1:
        return (lambda: x.append_subset_list(al)), look, [g, t, i, how]
    if how == 2:
        def call():
            x.subset_list = [al]
        return call, look, [g, t, i, how]
    if not own:
        return None

    def call():
        if how == 3:
            x.subset_list = own + [al]
        else:
            x.set_subset_list([al] + own[1:])
    return call, look, [g, t, i, how]


def k_tier_pop(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    T = s.grid[g][t]
    hi = M.gbounds(s.m[g])[1]
    x = T.entry_class((hi + 5.0, hi + 6.0, "gone"))
    return (lambda: T.pop(x)), (lambda: _entry(x)), [g, t]


def k_interleave(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    c = s.m[g]["cls"]
    top, bot, any_ = c[0], c[-1], c[t]
    name = "Refused"
    kw = [dict(name=name, above=any_, below=any_), dict(name=name), dict(name="", above=any_),
          dict(name=name, above="NoSuchLevel"), dict(name=name, above=any_, timing_from="sideways"),
          dict(name=name, above=top, timing_from="above"), dict(name=name, below=bot, timing_from="below")][st["v"] % 7]
    return (lambda: s.grid.interleave_class(**kw)), (lambda: None), kw


def k_times(hist, st):
    s = hist.slot
    pts = bool(_pg(s.m)) and st["v"] % 3 == 0
    p = _ti(s.m, st, pts=pts)
    if p is None:
        return None
    g, t, i = p
    T = s.grid[g][t]
    n = len(T)
    vals = [1.0 * k + 500 for k in range(n + 1 if st["v"] % 2 else n - 1)]

    def call():
        if pts:
            T.times = vals
        elif st["d"] > 0:
            T.starts = vals
        else:
            T.ends = vals
    return call, (lambda: None), [g, t, len(vals)]


def other_group(hist, st, depth=2, label="o"):
    """A stand-alone group with a hierarchy of its own."""
    from aligned_textgrid import custom_classes
    names = ["Other%d" % j for j in range(depth)]
    cl = custom_classes(names)
    base = st.get("t0", 1.0)

    def chain(d, s, e, k):
        return [s, e, label + str(k), [chain(d - 1, s, e, k)] if d > 1 else [], {}]
    tree = [chain(depth, base, base + 1.0, 0), chain(depth, base + 1.0, base + 2.0, 1)]
    return ops.build_group(names, names, cl, tree, name_tiers=False)


def k_group_concat(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    G = s.grid[g]
    d = len(G)
    o = other_group(hist, st, d if st["v"] % 2 else d + 1)
    if st["v"] % 3 == 0:
        return (lambda: G + o), (lambda: _grp(o)), [g, "add", len(o)]
    return (lambda: G.concat(o)), (lambda: _grp(o)), [g, "concat", len(o)]


def k_group_concat_same_names(hist, st):
    """A group whose classes only share the names."""
    from aligned_textgrid import custom_classes
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    G = s.grid[g]
    if G.entry_classes[0].__name__ in ("Word", "Phone") or any(n == "SequenceInterval" for n in s.m[g]["cls"]):
        return None
    names = list(s.m[g]["cls"])
    cl = custom_classes(names)
    if any(issubclass(a, b) or issubclass(b, a) for a, b in zip(G.entry_classes, cl)):
        return None

    def chain(d, a, b, k):
        return [a, b, "o%d" % k, [chain(d - 1, a, b, k)] if d > 1 else [], {}]
    o = ops.build_group(names, names, cl, [chain(len(names), 1.0, 2.0, 0), chain(len(names), 2.0, 3.5, 1)], name_tiers=False)
    return (lambda: G.concat(o)), (lambda: _grp(o)), [g, names]


def k_tier_concat(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    T = s.grid[g][t]
    o = other_group(hist, st, 1)
    if st["v"] % 2:
        return (lambda: T + o[0]), (lambda: _grp(o)), [g, t, "add"]
    return (lambda: T.concat(o[0])), (lambda: _grp(o)), [g, t, "concat"]


def k_save_format(hist, st):
    s = hist.slot
    path = os.path.join(hist.ctx.dir, "%s-refused.TextGrid" % hist.name)
    if st["v"] % 2:
        disk.put(path, b"precious")
    had = os.path.exists(path)
    fmt = ["longtextgrid", "TextGrid", "", "xml"][st["v"] % 4]

    def look():
        return disk.raw_bytes(path) if had else None
    return (lambda: s.grid.save_textgrid(path, fmt)), look, [fmt]


def k_order(hist, st):
    """An entry cannot precede or follow itself, or an entry of another class."""
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    x = s.grid[g][t][i]
    if st["v"] % 2:
        y = x
    else:
        y = namesake(hist, st, g, t)((0.0, 1.0, "new"))
    f = x.set_fol if st["d"] > 0 else x.set_prev
    return (lambda: f(y)), (lambda: None), [g, t, i, st["v"] % 2]


def k_groups_setter(hist, st):
    s = hist.slot
    junk = [["a", "b"], 3, [s.grid[0], None], [s.grid[0][0]]][st["v"] % 4]

    def call():
        s.grid.tier_groups = junk
    return call, (lambda: None), [st["v"] % 4]


def k_entry_add(hist, st):
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    x = s.grid[g][t][i]
    y = namesake(hist, st, g, t + (1 if st["d"] > 0 else -1))((x.start, x.end, "new"))
    return (lambda: x + y), (lambda: _entry(y)), [g, t, i]


def k_group_append(hist, st):
    """A tier that does not fit into the group."""
    from aligned_textgrid import SequenceTier, SequencePointTier
    s = hist.slot
    pts = bool(_pg(s.m)) and st["v"] % 4 == 0
    p = _ti(s.m, st, pts=pts)
    if p is None:
        return None
    g, t, i = p
    G = s.grid[g]
    name = s.m[g]["cls"][t]
    if pts:
        if st["d"] > 0:
            c = G[t].entry_class                       # the group has such a tier
            x = SequencePointTier([c((1.0, "new"))], c)
        else:
            c = alien(hist)                            # not a tier of points
            x = SequenceTier([c((0.0, 1.0, "new"))], c)
    elif "SequenceInterval" in s.m[g]["cls"]:
        return None                                    # the base class: every class is related to it
    else:
        how = st["v"] % 4
        if how == 1:
            c = alien(hist)
        elif how == 2 and s.info.orig_ok(s.m[g]):
            c = s.info.classes[name]
        elif how == 3:
            c = alien_point(hist)
            x = SequencePointTier([c((1.0, "new"))], c)
            return (lambda: G.append(x)), (lambda: [_tag(x.entry_class)] + [_entry(e) for e in x]), [g, t, "points"]
        else:
            c = G[t].entry_class
        x = SequenceTier([c((0.0, 1.0, "new")), c((1.0, 2.0, "new2"))], c)
    return (lambda: G.append(x)), (lambda: [_tag(x.entry_class), _tag(x.within)] + [_entry(e) for e in x]), [g, t, c.__name__]


def k_grid_append(hist, st):
    s = hist.slot
    junk = ["x", 3, s.grid[0][0], next(x for G in s.grid for T in G for x in T), None, [1]][st["v"] % 6]
    return (lambda: s.grid.append(junk)), (lambda: None), [st["v"] % 6]


def k_class_order(hist, st):
    """A class cannot be above or below itself, or next to something that is no part of a hierarchy."""
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    c = s.grid[g][t].entry_class
    bad = [c, int, alien_point(hist)][st["v"] % 3]
    f = c.set_superset_class if st["d"] > 0 else c.set_subset_class
    return (lambda: f(bad)), (lambda: [_tag(c.superset_class), _tag(c.subset_class)]), [g, t, st["v"] % 3]


def k_mixed_list(hist, st):
    """A list holds entries of one class."""
    from aligned_textgrid import SequenceList
    s = hist.slot
    p = _ti(s.m, st)
    if p is None:
        return None
    g, t, i = p
    if s.m[g]["cls"][t] == "SequenceInterval":
        return None
    T = s.grid[g][t]
    x = T[i]
    y = namesake(hist, st, g, t)((x.start, x.end, "new"))
    how = st["v"] % 5
    call = [lambda: SequenceList(x, y), lambda: SequenceList(y, x), lambda: T.sequence_list + [y],
            lambda: T.sequence_list.append(y), lambda: T.sequence_list + [T.entry_class((x.end, x.end + 1, "n")), y]][how]
    return call, (lambda: _entry(y)), [g, t, i, how]


def k_bad_index(hist, st):
    """Lists of indices of the wrong length."""
    s = hist.slot
    gi = st["g"] % len(s.m)
    G = s.grid[gi]
    if st["v"] % 2:
        return (lambda: G[[0] * (len(G) + st["v"] % 3 + 1)]), (lambda: None), [gi, "group"]
    return (lambda: s.grid[[0] * (len(s.grid) + st["v"] % 3 + 1)]), (lambda: None), ["grid"]


def k_points_concat(hist, st):
    """Groups and tiers of points only take points of their own class."""
    from aligned_textgrid import SequencePointTier, PointsGroup
    s = hist.slot
    p = _ti(s.m, st, pts=True)
    if p is None or "SequencePoint" in s.m[p[0]]["cls"]:
        return None
    g, t, i = p
    G = s.grid[g]
    c = alien_point(hist)
    n = len(G) + (0 if st["v"] % 2 else 1)
    o = PointsGroup([SequencePointTier([c((0.5, "o1")), c((1.5, "o2"))], c) for _ in range(n)])
    how = st["v"] % 4
    call = [lambda: G + o, lambda: G.concat(o), lambda: G[t] + o[0], lambda: G[t].concat(o[0])][how]
    return call, (lambda: [[_tag(x.within), _tag(x.entry_class)] + [_entry(e) for e in x] for x in o]), [g, t, how]


def k_fewer_tiers(hist, st):
    """A group of the same classes that lacks tiers, or has one more, is no continuation of a group."""
    from aligned_textgrid import SequencePointTier, PointsGroup
    s = hist.slot
    gi = st["g"] % len(s.m)
    G = s.grid[gi]
    cl = list(G.entry_classes)
    names = [c.__name__ for c in cl]
    d = len(cl)
    if s.m[gi]["kind"] == "P":
        use = cl[:-1] if st["v"] % 2 and d > 1 else cl + [cl[-1]]
        o = PointsGroup([SequencePointTier([c((0.5, "o1")), c((1.5, "o2"))], c) for c in use])
    else:
        if d < 2:
            return None
        n = d - 1 if st["v"] % 4 < 3 else 1

        def chain(k, a, b, j):
            return [a, b, "o%d" % j, [chain(k - 1, a, b, j)] if k > 1 else [], {}]
        o = ops.build_group(names[:n], names[:n], cl[:n], [chain(n, 1.0, 2.0, 0), chain(n, 2.0, 3.5, 1)], name_tiers=False)
    a, b = (G, o) if st["d"] > 0 else (o, G)
    how = st["v"] % 3

    def look():
        return [[_tag(x.within), _tag(x.entry_class)] + [_entry(e) for e in x] for x in o]
    return ((lambda: a + b) if how == 0 else (lambda: a.concat(b))), look, [gi, len(o), st["d"], how]


def k_df(hist, st):
    """Only objects of the library become data frames."""
    from aligned_textgrid.outputs.to_dataframe import to_df
    junk = ["x", 3, None, [hist.slot.grid], {}][st["v"] % 5]
    return (lambda: to_df(junk)), (lambda: None), [st["v"] % 5]


KINDS = {k[2:]: f for k, f in list(globals().items()) if k.startswith("k_")}
ALWAYS = sorted(KINDS)


def gen_step(r, kinds=None):
    return {"op": "refused", "kind": r.choice(kinds or ALWAYS), "g": r.randrange(9), "t": r.randrange(9),
            "i": r.randrange(99), "d": r.choice([1, -1]), "v": r.randrange(420), "t0": r.choice([0.0, 1.0, 2.5])}


def build(hist, st):
    return KINDS[st["kind"]](hist, st)


def attempt(hist, st):
    """True if the library raised, False if it accepted, None if not applicable."""
    b = build(hist, st)
    if b is None:
        return None
    try:
        b[0]()
    except Exception:
        return True
    return False
