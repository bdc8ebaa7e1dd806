"""The reference model: plain trees and lists, with the meaning of every edit.

Model of a grid: list of groups; a group is
  {"kind": "I", "cls": [...], "tiers": [...], "name": str|None, "tree": [node, ...]}
  {"kind": "P", "cls": [...], "tiers": [...], "name": str|None, "pts": [[point, ...], ...]}
node = [start, end, label, kids, feats]; point = [time, label, feats].
"""
import copy


def _node(n):
    return [float(n[0]), float(n[1]), n[2], [_node(k) for k in n[3]], {}]


def from_spec(s):
    out = []
    for g in s["groups"]:
        names = list(s["hiers"][g["h"]]["names"])
        names = names[g.get("k0", 0):g.get("k", len(names))]
        m = {"cls": names, "tiers": list(g["tiers"]), "name": None}
        if "tree" in g:
            m["kind"] = "I"
            m["tree"] = [_node(n) for n in g["tree"]]
        else:
            m["kind"] = "P"
            # a points group keeps its tiers in the order they were given
            o = s["order"][s["groups"].index(g)]
            m["cls"] = [names[j] for j in o]
            m["tiers"] = [g["tiers"][j] for j in o]
            m["pts"] = [[[float(p[0]), p[1], {}] for p in g["points"][j]] for j in o]
        out.append(m)
    return out


def clone(m):
    return copy.deepcopy(m)


def level(g, t):
    """The nodes of tier t, left to right."""
    cur = g["tree"]
    for _ in range(t):
        cur = [k for n in cur for k in n[3]]
    return cur


def families(g, t):
    """[(parent node or None, siblings list)] for tier t."""
    if t == 0:
        return [(None, g["tree"])]
    return [(p, p[3]) for p in level(g, t - 1)]


def walk(g):
    def rec(ns):
        for n in ns:
            yield n
            yield from rec(n[3])
    yield from rec(g["tree"])


def bounds(m):
    lo, hi = [], []
    for g in m:
        b = gbounds(g)
        if b[0] is None:
            continue
        lo.append(b[0])
        hi.append(b[1])
    return min(lo), max(hi)


def gbounds(g):
    if g["kind"] == "I":
        return (g["tree"][0][0], g["tree"][-1][1]) if g["tree"] else (None, None)
    ts = [p[0] for t in g["pts"] for p in t]
    return min(ts, default=None), max(ts, default=None)


def content(m, feats=True, names=True):
    """Canonical, comparable form."""
    def node(n):
        out = [n[0], n[1], n[2], [node(k) for k in n[3]]]
        if feats:
            out.append(sorted(n[4].items()))
        return out
    res = []
    for g in m:
        d = {"kind": g["kind"], "cls": list(g["cls"])}
        if names:
            d["tiers"] = list(g["tiers"])
        if g["kind"] == "I":
            d["tree"] = [node(n) for n in g["tree"]]
        else:
            d["pts"] = [[[p[0], p[1]] + ([sorted(p[2].items())] if feats else []) for p in t] for t in g["pts"]]
        res.append(d)
    return res


def padded(m):
    """What a saved file holds: interval tiers filled with blanks to the common extent."""
    lo, hi = bounds(m)
    out = clone(m)

    def chain(s, e, depth):
        return [s, e, "", [chain(s, e, depth - 1)] if depth > 1 else [], {}]
    for g in out:
        if g["kind"] != "I":
            continue
        d = len(g["cls"])
        if not g["tree"]:
            g["tree"] = [chain(lo, hi, d)]
            continue
        if g["tree"][0][0] > lo + SNUG:
            g["tree"].insert(0, chain(lo, g["tree"][0][0], d))
        if g["tree"][-1][1] < hi - SNUG:
            g["tree"].append(chain(g["tree"][-1][1], hi, d))
    return out


SNUG = 1e-6         # times this close are the same time: rounding, not a gap


def cleaned(m):
    """What AlignedTextGrid.cleanup() promises: interval groups padded to each other's extent."""
    ig = [g for g in m if g["kind"] == "I" and g["tree"]]
    if not ig:
        return clone(m)
    lo = min(gbounds(g)[0] for g in ig)
    hi = max(gbounds(g)[1] for g in ig)
    out = clone(m)
    for g in out:
        if g["kind"] != "I":
            continue
        d = len(g["cls"])

        def chain(s, e, depth):
            return [s, e, "", [chain(s, e, depth - 1)] if depth > 1 else [], {}]
        if not g["tree"]:
            g["tree"] = [chain(lo, hi, d)]
            continue
        if g["tree"][0][0] > lo + SNUG:
            g["tree"].insert(0, chain(lo, g["tree"][0][0], d))
        if g["tree"][-1][1] < hi - SNUG:
            g["tree"].append(chain(g["tree"][-1][1], hi, d))
    return out


# ---- edits ---------------------------------------------------------------

def shift_nodes(ns, inc):
    for n in ns:
        n[0] = n[0] + inc
        n[1] = n[1] + inc
        shift_nodes(n[3], inc)


def shift_group(g, inc):
    if g["kind"] == "I":
        shift_nodes(g["tree"], inc)
    else:
        for t in g["pts"]:
            for p in t:
                p[0] = p[0] + inc


def scale_group(g, k):
    if g["kind"] == "I":
        for n in walk(g):
            n[0] = n[0] * k
            n[1] = n[1] * k
    else:
        for t in g["pts"]:
            for p in t:
                p[0] = p[0] * k


def locate(g, t, i):
    """(siblings, position among siblings) of entry i of tier t."""
    for _, sibs in families(g, t):
        if i < len(sibs):
            return sibs, i
        i -= len(sibs)
    raise IndexError


def parent_of(g, t, i):
    for p, sibs in families(g, t):
        if i < len(sibs):
            return p
        i -= len(sibs)
    raise IndexError


def fuse(g, t, i, direction, join):
    sibs, k = locate(g, t, i)
    a, b = (k, k + 1) if direction > 0 else (k - 1, k)
    left, right = sibs[a], sibs[b]
    keep = left if direction > 0 else right
    lab = join(left[2], right[2])
    s, e, kids = left[0], right[1], left[3] + right[3]
    keep[0], keep[1], keep[2], keep[3] = s, e, lab, kids
    sibs.pop(b if direction > 0 else a)


def interleave(m, name, above, below, timing, copy_labels):
    """Insert a level in every group having the named level."""
    for g in m:
        if g["kind"] != "I":
            continue
        anchor = above or below
        if anchor not in g["cls"]:
            continue
        j = g["cls"].index(anchor)
        pos = j if above else j + 1           # index of the new level
        n_lv = len(g["cls"])
        if timing == "below":                 # wrap each node now at level `pos`
            for p, sibs in families(g, pos):
                sibs[:] = [[n[0], n[1], n[2] if copy_labels else "", [n], {}] for n in sibs]
        else:                                 # each node at level pos-1 gets one new child
            for n in level(g, pos - 1):
                n[3] = [[n[0], n[1], n[2] if copy_labels else "", n[3], {}]]
        assert n_lv >= 1
        g["cls"].insert(pos, name)
        g["tiers"].insert(pos, name)


def pop_level(m, name):
    out = []
    for g in m:
        if name not in g["cls"]:
            out.append(g)
            continue
        if len(g["cls"]) == 1:
            continue
        if g["kind"] == "I":
            j = g["cls"].index(name)
            if j == len(g["cls"]) - 1:
                for n in level(g, j - 1):
                    n[3] = []
            else:
                for p, sibs in families(g, j):
                    sibs[:] = [k for n in sibs for k in n[3]]
            del g["cls"][j]
            del g["tiers"][j]
        out.append(g)
    m[:] = out


def adopt_times(m, got):
    """Take the exact times of a reloaded grid (they agree within the file format's precision)."""
    def rec(ns, cs):
        for n, c in zip(ns, cs):
            n[0], n[1] = c[0], c[1]
            rec(n[3], c[3])
    for g, c in zip(m, got):
        if g["kind"] == "I":
            rec(g["tree"], c["tree"])
        else:
            for t, ct in zip(g["pts"], c["pts"]):
                for p, cp in zip(t, ct):
                    p[0] = cp[0]
