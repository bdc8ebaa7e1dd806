"""The edit operations: how each is generated, done to the library, and done to the model.

An operation is a JSON object; its indices are taken modulo the current sizes,
so that dropping an earlier operation while minimising leaves the rest valid.
``prep(m, op, info)`` turns it into concrete arguments from the model alone (or
None: not applicable now); ``real`` does it to the library's grid through the
public API; ``model`` does it to the reference model.
"""
import copy

from . import gen, model as M

MIN_DUR = 0.004
JOIN = {
    "default": None,
    "plus": lambda a, b: a + "+" + b,
    "left": lambda a, b: a,
    "const": lambda a, b: "X",
    "none": lambda a, b: b + a,
}


def join_model(name):
    f = JOIN[name]
    return f or (lambda a, b: " ".join([a, b]))


class Info:
    """What the harness knows about a grid besides the model."""

    def __init__(self, classes, chains, used):
        self.classes = classes      # {class name: original class object}
        self.chains = chains        # list of original chains (lists of names)
        self.used = set(used)       # every class name this grid ever had
        self.pickled = False
        self.changed = False        # levels were put in or taken out

    def orig_ok(self, g):
        return (not self.pickled) and list(g["cls"]) in self.chains

    def copy(self):
        i = Info(self.classes, self.chains, self.used)
        i.pickled = self.pickled
        i.changed = self.changed
        return i


def _igroups(m):
    return [i for i, g in enumerate(m) if g["kind"] == "I" and g["tree"]]


def _any_igroups(m):
    return [i for i, g in enumerate(m) if g["kind"] == "I"]


def _pgroups(m):
    return [i for i, g in enumerate(m) if g["kind"] == "P"]


def _pick(lst, k):
    return lst[k % len(lst)] if lst else None


def cls_of(grid_group, info, names, which):
    if which == "orig":
        return [info.classes[n] for n in names]
    return list(grid_group.entry_classes)


def build_entry(classes, node, how="append"):
    """A library entry with its whole subtree, from a model node."""
    x = classes[0]((node[0], node[1], node[2]))
    return link(x, [build_entry(classes[1:], k, how) for k in node[3]], how)


def link(x, kids, how):
    """Give an entry its children by one of the library's calls."""
    if not kids:
        return x
    if how == "append":
        for k in kids:
            x.append(k)
    elif how == "super":
        for k in kids:
            k.set_super_instance(x)
    elif how == "word":
        for k in kids:
            getattr(k, "set_word", k.set_super_instance)(x)
    elif how == "phones":
        getattr(x, "set_phones", x.set_subset_list)(kids)
    elif how == "add":
        for k in kids:
            x = x + k
    elif how == "radd":            # the lower entry on the left: the upper one gets it
        for k in kids:
            k + x
    elif how == "append_sub":
        for k in reversed(kids):
            x.append_subset_list(k)
    elif how == "prop":
        x.subset_list = kids
    else:
        x.set_subset_list(kids)
    return x


def rel_tree(r, depth, n=1):
    """A small subtree starting at 0."""
    unit = r.choice([0.25, 0.1, 0.03125])
    t = gen._tree(r, depth, 0, n, unit, r.choice([1, 2, 3]))
    gen._scale(t, unit)
    return t


def at(tree, base):
    return [[n[0] + base, n[1] + base, n[2], at(n[3], base), {}] for n in tree]


def trim(tree, depth):
    """Make a generated tree exactly `depth` levels deep."""
    out = []
    for n in tree:
        if depth == 1:
            out.append([n[0], n[1], n[2], []])
        else:
            kids = n[3] or [[n[0], n[1], n[2], []]]
            out.append([n[0], n[1], n[2], trim(kids, depth - 1)])
    return out


OPS = {}


def op(name):
    def reg(c):
        OPS[name] = c
        c.name = name
        return c
    return reg


@op("relabel")
class Relabel:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "label": gen.label(r, quotes=False)}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] % len(m)
        t = o["t"] % len(m[g]["cls"])
        n = len(M.level(m[g], t)) if m[g]["kind"] == "I" else len(m[g]["pts"][t])
        if not n:
            return None
        return {"g": g, "t": t, "i": o["i"] % n, "label": o["label"]}

    @staticmethod
    def real(grid, a, info):
        grid[a["g"]][a["t"]][a["i"]].label = a["label"]

    @staticmethod
    def model(m, a, info):
        g = m[a["g"]]
        if g["kind"] == "I":
            M.level(g, a["t"])[a["i"]][2] = a["label"]
        else:
            g["pts"][a["t"]][a["i"]][1] = a["label"]


@op("feature")
class Feature:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99),
                "f": r.choice(["acoustic", "note", "f0"]), "v": r.choice([1, 2.5, "x", r.randrange(1000), None, [1, [2, "y"]], {"k": [1.5], "z": None}, [], {}])}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] % len(m)
        if g not in _igroups(m):
            g = _pick(_igroups(m), o["g"])
            if g is None:
                return None
        t = o["t"] % len(m[g]["cls"])
        n = len(M.level(m[g], t))
        return {"g": g, "t": t, "i": o["i"] % n, "f": o["f"], "v": o["v"]}

    @staticmethod
    def real(grid, a, info):
        grid[a["g"]][a["t"]][a["i"]].set_feature(a["f"], copy.deepcopy(a["v"]))

    @staticmethod
    def model(m, a, info):
        M.level(m[a["g"]], a["t"])[a["i"]][4][a["f"]] = a["v"]


@op("fuse")
class Fuse:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "d": r.choice([1, -1]),
                "fn": r.choice(list(JOIN)), "alias": r.random() < 0.2}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_igroups(m), o["g"])
        if g is None:
            return None
        t = o["t"] % len(m[g]["cls"])
        ok = []
        n = 0
        for _, sibs in M.families(m[g], t):
            for k in range(len(sibs)):
                if (o["d"] > 0 and k + 1 < len(sibs)) or (o["d"] < 0 and k > 0):
                    ok.append(n)
                n += 1
        i = _pick(ok, o["i"])
        if i is None:
            return None
        return {"g": g, "t": t, "i": i, "d": o["d"], "fn": o["fn"], "alias": o.get("alias", False)}

    @staticmethod
    def real(grid, a, info):
        x = grid[a["g"]][a["t"]][a["i"]]
        f = JOIN[a["fn"]]
        args = () if f is None else (f,)
        name = ("fuse_rightward" if a["d"] > 0 else "fuse_leftward") + ("" if a["alias"] else "s")
        getattr(x, name)(*args)

    @staticmethod
    def model(m, a, info):
        M.fuse(m[a["g"]], a["t"], a["i"], a["d"], join_model(a["fn"]))


@op("shift")
class Shift:
    @staticmethod
    def gen(r):
        return {"g": r.choice([-1, -1, 0, 1, 2]), "inc": r.choice([0.5, 1.0, 2.25, 10.0, -0.25, -1.0, -7.0, 0.1])}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] if o["g"] < 0 else o["g"] % len(m)
        lo, hi = M.bounds(m) if g < 0 else M.gbounds(m[g])
        if lo is None:
            return None
        inc = float(max(o["inc"], -lo))
        if hi + inc > 1e5 or inc == 0:
            return None
        return {"g": g, "inc": inc}

    @staticmethod
    def real(grid, a, info):
        (grid if a["g"] < 0 else grid[a["g"]]).shift(a["inc"])

    @staticmethod
    def model(m, a, info):
        for g in (m if a["g"] < 0 else [m[a["g"]]]):
            M.shift_group(g, a["inc"])


@op("stretch")
class Stretch:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "k": r.choice([2.0, 0.5, 1.5])}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] % len(m)
        G = m[g]
        if (M.gbounds(G)[1] or 0) * o["k"] > 1e5:
            return None
        if G["kind"] == "I" and o["k"] < 1 and min((n[1] - n[0] for n in M.walk(G)), default=1) < 0.02:
            return None
        return {"g": g, "k": o["k"]}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        for t in G:
            if hasattr(t, "times"):
                t.times = [float(x) * a["k"] for x in t.times]
            else:
                s, e = [float(x) * a["k"] for x in t.starts], [float(x) * a["k"] for x in t.ends]
                t.starts = s
                t.ends = e

    @staticmethod
    def model(m, a, info):
        M.scale_group(m[a["g"]], a["k"])


@op("move")
class Move:
    """Move a boundary of the bottom tier, and every boundary above that coincides."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "i": r.randrange(99), "f": r.choice([0.25, 0.5, 0.75])}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_igroups(m), o["g"])
        if g is None:
            return None
        G = m[g]
        L = M.level(G, len(G["cls"]) - 1)
        if len(L) < 2:
            return None
        i = o["i"] % (len(L) - 1)
        s, e, old = L[i][0], L[i + 1][1], L[i][1]
        new = s + (e - s) * o["f"]
        if new - s < MIN_DUR or e - new < MIN_DUR:
            return None
        sets = []
        for t in range(len(G["cls"])):
            for j, n in enumerate(M.level(G, t)):
                if n[1] == old:
                    sets.append([t, j, 1])
                if n[0] == old:
                    sets.append([t, j, 0])
        return {"g": g, "new": new, "sets": sets}

    @staticmethod
    def real(grid, a, info):
        for t, j, w in a["sets"]:
            x = grid[a["g"]][t][j]
            if w:
                x.end = a["new"]
            else:
                x.start = a["new"]

    @staticmethod
    def model(m, a, info):
        for t, j, w in a["sets"]:
            M.level(m[a["g"]], t)[j][w] = a["new"]


@op("point_move")
class PointMove:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "f": r.choice([0.25, 0.5, 0.75])}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_pgroups(m), o["g"])
        if g is None:
            return None
        t = o["t"] % len(m[g]["pts"])
        L = m[g]["pts"][t]
        if not L:
            return None
        i = o["i"] % len(L)
        lo = L[i - 1][0] if i else L[i][0]
        hi = L[i + 1][0] if i + 1 < len(L) else L[i][0]
        new = lo + (hi - lo) * o["f"]
        if new in [p[0] for p in L]:
            return None
        return {"g": g, "t": t, "i": i, "new": new}

    @staticmethod
    def real(grid, a, info):
        grid[a["g"]][a["t"]][a["i"]].time = a["new"]

    @staticmethod
    def model(m, a, info):
        m[a["g"]]["pts"][a["t"]][a["i"]][0] = a["new"]


@op("append_word")
class AppendWord:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "tree": rel_tree(r, 4), "cls": r.choice(["own", "orig"]), "gap": 0,
                "how": r.choice(["append", "super", "append_sub", "prop", "set", "word", "phones", "add", "radd"])}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_any_igroups(m), o["g"])
        if g is None:
            return None
        G = m[g]
        if len(G["tree"]) > 14:
            return None
        node = at(trim(o["tree"], len(G["cls"])), G["tree"][-1][1] if G["tree"] else 0.5)[0]
        return {"g": g, "node": node, "cls": o["cls"] if info.orig_ok(G) else "own", "how": o["how"],
                "names": list(G["cls"])}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        x = build_entry(cls_of(G, info, a["names"], a["cls"]), a["node"], a["how"])
        G[0].append(x)

    @staticmethod
    def model(m, a, info):
        m[a["g"]]["tree"].append(M._node(a["node"]))


@op("point_append")
class PointAppend:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "f": r.choice([0.25, 0.5]),
                "label": gen.label(r, quotes=False), "cls": r.choice(["own", "orig"])}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_pgroups(m), o["g"])
        if g is None:
            return None
        t = o["t"] % len(m[g]["pts"])
        L = m[g]["pts"][t]
        if len(L) > 12:
            return None
        k = o["i"] % (len(L) + 1)
        lo = L[k - 1][0] if k else 0.0
        hi = L[k][0] if k < len(L) else lo + 1.0
        time = lo + (hi - lo) * o["f"]
        if time in [p[0] for p in L] or time <= 0:
            return None
        return {"g": g, "t": t, "k": k, "time": time, "label": o["label"],
                "cls": "own" if info.pickled else o["cls"], "name": m[g]["cls"][t]}

    @staticmethod
    def real(grid, a, info):
        T = grid[a["g"]][a["t"]]
        c = T.entry_class if a["cls"] == "own" else info.classes[a["name"]]
        T.append(c((a["time"], a["label"])))

    @staticmethod
    def model(m, a, info):
        m[a["g"]]["pts"][a["t"]].insert(a["k"], [a["time"], a["label"], {}])


@op("split")
class Split:
    """Shorten an entry, with the entries below that end with it, and append a new one in the freed time."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "i": r.randrange(99), "f": r.choice([0.25, 0.5, 0.75]), "up": r.choice([0, 0, 0, 1, 2, 3]),
                "label": gen.label(r), "cls": r.choice(["own", "orig"]), "how": r.choice(["append", "append", "set", "super", "add", "radd"])}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_igroups(m), o["g"])
        if g is None:
            return None
        G = m[g]
        d = len(G["cls"])
        t = max(0, d - 1 - o.get("up", 0))
        L = M.level(G, t)
        if len(M.level(G, d - 1)) > 40:
            return None
        i = o["i"] % len(L)
        chain, n = [], L[i]
        for u in range(t, d):
            chain.append([u, next(j for j, x in enumerate(M.level(G, u)) if x is n)])
            s, e = n[0], n[1]
            n = n[3][-1] if n[3] else None
        mid = s + (e - s) * o["f"]
        if mid - s < MIN_DUR or e - mid < MIN_DUR:
            return None
        pi = None
        if t > 0:
            p = M.parent_of(G, t, i)
            pi = next(j for j, n in enumerate(M.level(G, t - 1)) if n is p)
        return {"g": g, "t": t, "i": i, "pi": pi, "mid": mid, "end": e, "label": o["label"], "chain": chain,
                "how": o.get("how", "append"), "cls": o["cls"] if info.orig_ok(G) else "own", "names": G["cls"][t:]}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        for u, j in a["chain"]:
            G[u][j].end = a["mid"]
        new = None
        for k in reversed(range(len(a["chain"]))):
            T = G[a["chain"][k][0]]
            c = T.entry_class if a["cls"] == "own" else info.classes[a["names"][k]]
            x = c((a["mid"], a["end"], a["label"] if k == 0 else "%s.%d" % (a["label"], k)))
            if new is None:
                pass
            elif a["how"] == "set":
                x.set_subset_list([new])
            elif a["how"] == "super":
                new.set_super_instance(x)
            elif a["how"] == "add":
                x = x + new
            elif a["how"] == "radd":
                new + x
            else:
                x.append(new)
            new = x
        if a["t"] == 0:
            G[0].append(new)
        else:
            G[a["t"] - 1][a["pi"]].append(new)

    @staticmethod
    def model(m, a, info):
        G = m[a["g"]]
        sibs, at = M.locate(G, a["t"], a["i"])
        for u, j in a["chain"]:
            M.level(G, u)[j][1] = a["mid"]
        new = None
        for k in reversed(range(len(a["chain"]))):
            new = [a["mid"], a["end"], a["label"] if k == 0 else "%s.%d" % (a["label"], k), [new] if new else [], {}]
        sibs.insert(at + 1, new)


@op("reassign")
class Reassign:
    """Give the last (first) child of an entry to its right (left) neighbour."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "i": r.randrange(99), "d": r.choice([1, -1]),
                "how": r.choice(["super", "append_sub", "set", "prop", "word", "phones"])}

    @staticmethod
    def prep(m, o, info):
        ok = []
        for g in _igroups(m):
            G = m[g]
            d = len(G["cls"])
            if d < 2:
                continue
            P = M.level(G, d - 2)
            n = 0
            for j, p in enumerate(P):
                k = len(p[3])
                if k >= 2 and o["d"] > 0 and j + 1 < len(P):
                    ok.append((g, d, n + k - 1, j, j + 1))
                if k >= 2 and o["d"] < 0 and j > 0:
                    ok.append((g, d, n, j, j - 1))
                n += k
        c = _pick(ok, o["i"])
        if c is None:
            return None
        g, d, i, ja, jb = c
        G = m[g]
        leaf = M.level(G, d - 1)[i]
        A = M.level(G, d - 2)[ja]
        old = A[1] if o["d"] > 0 else A[0]
        new = leaf[0] if o["d"] > 0 else leaf[1]
        sets = []
        for t in range(d - 1):
            for j, n in enumerate(M.level(G, t)):
                if n[1] == old:
                    sets.append([t, j, 1])
                if n[0] == old:
                    sets.append([t, j, 0])
        return {"g": g, "d": d, "i": i, "ja": ja, "jb": jb, "new": new, "sets": sets, "dir": o["d"], "how": o["how"]}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        leaf, B = G[a["d"] - 1][a["i"]], G[a["d"] - 2][a["jb"]]
        for t, j, w in a["sets"]:
            x = G[t][j]
            if w:
                x.end = a["new"]
            else:
                x.start = a["new"]
        if a["how"] == "super":
            leaf.set_super_instance(B)
        elif a["how"] == "word":
            getattr(leaf, "set_word", leaf.set_super_instance)(B)
        elif a["how"] == "append_sub":
            B.append_subset_list(leaf)
        else:
            old = list(B.subset_list)
            new = [leaf] + old if a["dir"] > 0 else old + [leaf]
            if a["how"] == "set":
                B.set_subset_list(new)
            elif a["how"] == "phones":
                getattr(B, "set_phones", B.set_subset_list)(new)
            else:
                B.subset_list = new

    @staticmethod
    def model(m, a, info):
        G = m[a["g"]]
        P = M.level(G, a["d"] - 2)
        A, B = P[a["ja"]], P[a["jb"]]
        for t, j, w in a["sets"]:
            M.level(G, t)[j][w] = a["new"]
        if a["dir"] > 0:
            B[3].insert(0, A[3].pop())
        else:
            B[3].append(A[3].pop(0))


@op("drop_last")
class DropLast:
    """Pop the last top entry and everything below it, bottom first."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9)}

    @staticmethod
    def prep(m, o, info):
        ok = [g for g in _igroups(m) if len(m[g]["tree"]) > 1]
        g = _pick(ok, o["g"])
        if g is None:
            return None
        G = m[g]
        keep = {"tree": G["tree"][:-1]}
        return {"g": g, "from": [len(M.level(keep, t)) for t in range(len(G["cls"]))]}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        for t in reversed(range(len(a["from"]))):
            for x in list(G[t])[a["from"][t]:]:
                G[t].pop(x)

    @staticmethod
    def model(m, a, info):
        m[a["g"]]["tree"].pop()


@op("drop_first")
class DropFirst:
    """Pop the first top entry and everything below it, top first."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9)}

    @staticmethod
    def prep(m, o, info):
        ok = [g for g in _igroups(m) if len(m[g]["tree"]) > 1]
        g = _pick(ok, o["g"])
        if g is None:
            return None
        G = m[g]
        return {"g": g, "n": [len(M.level({"tree": G["tree"][:1]}, t)) for t in range(len(G["cls"]))]}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        for t in reversed(range(len(a["n"]))):
            for x in list(G[t])[:a["n"][t]]:
                G[t].pop(x)

    @staticmethod
    def model(m, a, info):
        m[a["g"]]["tree"].pop(0)


@op("merge_pop")
class MergePop:
    """Hand an entry's children to a sibling, take it out, and give its time to that sibling."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "d": r.choice([1, -1]),
                "kids": r.choice(["super", "append_sub", "prop", "set"]),
                "out": r.choice(["tier", "tier", "parent", "remove", "superset", "list"])}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_igroups(m), o["g"])
        if g is None:
            return None
        t = o.get("t", 0) % len(m[g]["cls"])
        ok, n = [], 0
        for _, sibs in M.families(m[g], t):
            for k in range(len(sibs)):
                if 0 <= k + o["d"] < len(sibs):
                    ok.append(n)
                n += 1
        i = _pick(ok, o["i"])
        if i is None:
            return None
        L = M.level(m[g], t)
        return {"g": g, "t": t, "i": i, "d": o["d"], "time": L[i][0 if o["d"] > 0 else 1],
                "kids": o.get("kids", "set"), "out": o.get("out", "tier") if t else "tier"}

    @staticmethod
    def real(grid, a, info):
        T = grid[a["g"]][a["t"]]
        x, y = T[a["i"]], T[a["i"] + a["d"]]
        if len(x):
            kids = list(x.subset_list)
            if a["kids"] in ("prop", "set"):
                kids = kids + list(y.subset_list) if a["d"] > 0 else list(y.subset_list) + kids
            link(y, kids, a["kids"])
        p = x.super_instance
        if a["out"] == "parent":
            p.pop(x)
        elif a["out"] == "remove":
            p.remove_from_subset_list(x)
        elif a["out"] == "superset":
            x.remove_superset()
        elif a["out"] == "list":
            p.subset_list = [k for k in p.subset_list if k is not x]
        T.pop(x)
        if a["d"] > 0:
            y.start = a["time"]
        else:
            y.end = a["time"]

    @staticmethod
    def model(m, a, info):
        sibs, k = M.locate(m[a["g"]], a["t"], a["i"])
        x, y = sibs[k], sibs[k + a["d"]]
        y[0 if a["d"] > 0 else 1] = a["time"]
        y[3][:] = x[3] + y[3] if a["d"] > 0 else y[3] + x[3]
        sibs.pop(k)


@op("blank_out")
class BlankOut:
    """Pop an entry with all below it; cleaning up puts blank entries in the gap."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "i": r.randrange(99), "how": r.choice(["grid", "group", "relate"]),
                "down": r.random() < 0.4}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_igroups(m), o["g"])
        if g is None:
            return None
        G = m[g]
        t = o["t"] % len(G["cls"])
        L = M.level(G, t)
        if len(L) < 3:
            return None
        i = 1 + o["i"] % (len(L) - 2)       # the ends of a tier are its extent
        how = o["how"] if t else ["grid", "group"][o["i"] % 2]
        below, cur = [], [L[i]]
        for u in range(t, len(G["cls"])):
            first = cur[0]
            at = next(j for j, n in enumerate(M.level(G, u)) if n is first)
            below.append([u, at, len(cur)])
            cur = [k for n in cur for k in n[3]]
        return {"g": g, "t": t, "i": i, "below": below if o.get("down") else below[::-1], "how": how}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        for u, at, n in a["below"]:
            for x in list(G[u])[at:at + n]:
                G[u].pop(x)
        if a["how"] == "grid":
            grid.cleanup()
        elif a["how"] == "group":
            G.cleanup()
        else:
            G.re_relate()

    @staticmethod
    def model(m, a, info):
        G = m[a["g"]]
        sibs, k = M.locate(G, a["t"], a["i"])

        def chain(s, e, depth):
            return [s, e, "", [chain(s, e, depth - 1)] if depth > 1 else [], {}]
        sibs[k] = chain(sibs[k][0], sibs[k][1], len(G["cls"]) - a["t"])
        if a["how"] == "grid":
            m[:] = M.cleaned(m)


@op("tier_concat")
class TierConcat:
    """Concatenate a tier to a tier that stands alone in its group."""
    @staticmethod
    def gen(r):
        pts, t = [], 0.0
        for _ in range(r.choice([1, 2, 3])):
            t += r.choice([0.5, 0.25, 1.0])
            pts.append([t, gen.label(r, quotes=False)])
        return {"g": r.randrange(9), "t": r.randrange(9), "tree": rel_tree(r, 1, r.choice([1, 2, 3])), "pts": pts,
                "cls": r.choice(["own", "orig"])}

    @staticmethod
    def prep(m, o, info):
        ok = [i for i, g in enumerate(m) if g["kind"] == "P" or len(g["cls"]) == 1]
        g = _pick(ok, o["g"])
        if g is None:
            return None
        G = m[g]
        if G["kind"] == "I":
            if len(G["tree"]) > 14:
                return None
            return {"g": g, "t": 0, "name": G["cls"][0], "tree": at(trim(o["tree"], 1), 0.0), "inc": G["tree"][-1][1] if G["tree"] else 0.0,
                    "cls": o["cls"] if info.orig_ok(G) else "own"}
        t = o["t"] % len(G["cls"])
        if len(G["pts"][t]) > 10:
            return None
        return {"g": g, "t": t, "name": G["cls"][t], "pts": o["pts"], "inc": G["pts"][t][-1][0] if G["pts"][t] else 0,
                "cls": "own" if info.pickled else o["cls"]}

    @staticmethod
    def real(grid, a, info):
        from aligned_textgrid import SequenceTier, SequencePointTier
        T = grid[a["g"]][a["t"]]
        c = T.entry_class if a["cls"] == "own" else info.classes[a["name"]]
        if "tree" in a:
            new = SequenceTier([c((n[0], n[1], n[2])) for n in a["tree"]], c)
        else:
            new = SequencePointTier([c((p[0], p[1])) for p in a["pts"]], c)
        T.concat(new)

    @staticmethod
    def model(m, a, info):
        G = m[a["g"]]
        if "tree" in a:
            new = [M._node(n) for n in a["tree"]]
            M.shift_nodes(new, a["inc"])
            G["tree"] += new
        else:
            G["pts"][a["t"]] += [[p[0] + a["inc"], p[1], {}] for p in a["pts"]]


@op("interleave")
class Interleave:
    @staticmethod
    def gen(r):
        return {"name": r.choice(gen.NEW_LEVELS), "g": r.randrange(9), "t": r.randrange(9),
                "where": r.choice(["above", "below"]), "timing": r.choice(["above", "below"]),
                "copy": r.random() < 0.7, "bycls": r.random() < 0.3}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_any_igroups(m), o["g"])
        if g is None or o["name"] in info.used:
            return None
        G = m[g]
        if len(G["cls"]) > 5:
            return None
        j = o["t"] % len(G["cls"])
        if o["where"] == "above" and o["timing"] == "above" and any(
                G["cls"][j] == H["cls"][0] for H in m if H["kind"] == "I"):
            return None
        if o["where"] == "below" and o["timing"] == "below" and any(
                G["cls"][j] == H["cls"][-1] for H in m if H["kind"] == "I"):
            return None
        return {"name": o["name"], "anchor": G["cls"][j], "where": o["where"], "timing": o["timing"],
                "copy": o["copy"], "bycls": o["bycls"]}

    @staticmethod
    def real(grid, a, info):
        anchor = grid.get_class_by_name(a["anchor"]) if a["bycls"] else a["anchor"]
        grid.interleave_class(name=a["name"], timing_from=a["timing"], copy_labels=a["copy"], **{a["where"]: anchor})

    @staticmethod
    def model(m, a, info):
        info.used.add(a["name"])
        info.changed = True
        M.interleave(m, a["name"], a["anchor"] if a["where"] == "above" else None,
                     a["anchor"] if a["where"] == "below" else None, a["timing"], a["copy"])


@op("pop_level")
class PopLevel:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "bycls": r.random() < 0.3}

    @staticmethod
    def prep(m, o, info):
        g = _pick(_any_igroups(m), o["g"])
        if g is None:
            return None
        name = m[g]["cls"][o["t"] % len(m[g]["cls"])]
        left = [G for G in m if not (name in G["cls"] and len(G["cls"]) == 1)]
        if not any(G["kind"] == "I" and G["tree"] for G in left):
            return None
        return {"name": name, "bycls": o["bycls"]}

    @staticmethod
    def real(grid, a, info):
        grid.pop_class(grid.get_class_by_name(a["name"]) if a["bycls"] else a["name"])

    @staticmethod
    def model(m, a, info):
        info.changed = True
        M.pop_level(m, a["name"])


def build_group(names, tiers, classes, tree=None, pts=None, name_tiers=True, order=None):
    """A stand-alone TierGroup/PointsGroup from a model tree, tiers in `order`."""
    from aligned_textgrid import SequenceTier, SequencePointTier, TierGroup, PointsGroup
    from praatio.data_classes.interval_tier import IntervalTier
    from praatio.data_classes.point_tier import PointTier
    order = order or list(range(len(names)))
    out = []
    for j in order:
        if tree is not None:
            es = [(n[0], n[1], n[2]) for n in M.level({"tree": tree}, j)]
            if name_tiers:
                out.append(SequenceTier(IntervalTier(tiers[j], es, **({} if es else {"minT": 0, "maxT": 1})), classes[j]))
            else:
                out.append(SequenceTier([classes[j](e) for e in es], classes[j]))
        else:
            es = [(p[0], p[1]) for p in pts[j]]
            if name_tiers:
                out.append(SequencePointTier(PointTier(tiers[j], es, **({} if es else {"minT": 0, "maxT": 1})), classes[j]))
            else:
                out.append(SequencePointTier([classes[j](e) for e in es], classes[j]))
    return (TierGroup if tree is not None else PointsGroup)(out)


NEW_CHAIN = [["Refused", "Atom"], ["Bar", "Beat"], ["Scene", "Act", "Line"]]


@op("append_group")
class AppendGroup:
    @staticmethod
    def gen(r):
        return {"k": r.randrange(9), "tree": rel_tree(r, 4, r.choice([1, 2, 3])), "t0": r.choice([0.0, 0.0, 1.5, 30.0]),
                "named": r.random() < 0.5, "tag": "sp%d" % r.randrange(100), "rev": r.random() < 0.3,
                "src": r.choice(["orig", "orig", "own", "own", "new", "part", "points"]), "n": r.choice([1, 1, 2, 3]),
                "none": r.random() < 0.08}

    @staticmethod
    def prep(m, o, info):
        if len(m) > 4:
            return None
        src = o.get("src", "orig")
        like = None
        if src == "new":                    # a hierarchy the grid has not seen
            names = [n for n in NEW_CHAIN[o["k"] % len(NEW_CHAIN)] if n not in info.used][:o["n"]]
        elif src in ("own", "points"):      # the classes of a group that is there
            gs = [i for i, G in enumerate(m) if G["kind"] == ("P" if src == "points" else "I")]
            like = _pick(gs, o["k"])
            names = m[like]["cls"] if like is not None else None
        else:
            ig = [G["cls"] for G in m if G["kind"] == "I"]
            chains = [c for c in info.chains if any(g == c for g in ig)
                      or (any(g[0] == c[0] for g in ig) and all(g == c[:len(g)] for g in ig if g[0] == c[0])
                          and not info.changed)]
            names = _pick(chains, o["k"])
            if src == "part" and names:     # only its upper levels
                names = names[:o["n"]]
        if not names:
            return None
        tiers = ["%s %s" % (o["tag"], n) for n in names] if o["named"] else list(names)
        a = {"src": src, "like": like, "names": list(names), "tiers": tiers, "named": o["named"],
             "order": list(range(len(names)))[::-1 if o["rev"] else 1]}
        if src == "points":
            a["order"] = None
            a["pts"] = [[[n[0], n[2].replace('"', "")] for n in at(o["tree"], o["t0"])] for _ in names]
        else:
            a["tree"] = at(trim(o["tree"], len(names)), o["t0"])
        if o.get("none"):                   # nothing in it yet
            a.update({"pts": [[] for _ in names]} if src == "points" else {"tree": []})
        return a

    @staticmethod
    def real(grid, a, info):
        if a["src"] == "new":
            from aligned_textgrid import custom_classes
            cl = custom_classes(list(a["names"]))
            info.classes = dict(info.classes, **dict(zip(a["names"], cl)))
        elif a["like"] is not None:
            cl = list(grid[a["like"]].entry_classes)
        else:
            cl = [info.classes[n] for n in a["names"]]
        grid.append(build_group(a["names"], a["tiers"], cl, a.get("tree"), a.get("pts"), name_tiers=a["named"], order=a["order"]))

    @staticmethod
    def model(m, a, info):
        if a["src"] == "new":
            info.used = info.used | set(a["names"])
            info.chains = info.chains + [list(a["names"])]
        g = {"kind": "I", "cls": list(a["names"]), "tiers": list(a["tiers"]), "name": None}
        if "pts" in a:
            g["kind"] = "P"
            g["pts"] = [[[p[0], p[1], {}] for p in L] for L in a["pts"]]
        else:
            g["tree"] = [M._node(n) for n in a["tree"]]
        m.append(g)


@op("append_tier")
class AppendTier:
    """A further tier for a group: one more kind of points, or the next level of its hierarchy."""
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "k": r.randrange(9), "cls": r.choice(["own", "orig"]), "named": r.random() < 0.5,
                "up": r.random() < 0.5, "none": r.random() < 0.1,
                "times": [r.choice([0.25, 0.5, 1.0]) for _ in range(r.choice([1, 2, 3]))]}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] % len(m)
        if o["up"]:
            g = next((i for i, G in enumerate(m) if G["kind"] == "I" and any(
                H["kind"] == "I" and G["cls"][0] in H["cls"][1:] for H in m)), g)
        G = m[g]
        if G["kind"] == "P":
            free = [n for n in ["Boundary", "Accent"] if n not in info.used]
            if not free:
                return None
            es, t = [], 0.0
            for d in o["times"]:
                t += d
                es.append([t, "b%d" % len(es)])
            if o.get("none"):
                es = []
            return {"g": g, "name": free[0], "new": True, "pts": es, "cls": "orig", "tier": "bnd" if o["named"] else free[0]}
        n = len(G["cls"])
        full = next((H["cls"] for H in m if H["kind"] == "I" and G["cls"][0] in H["cls"][1:]), None)
        if full and o["up"]:                 # the level above
            at = full.index(G["cls"][0]) - 1
            if full[at + 1:at + 1 + n] != G["cls"]:
                return None
            like = next(i for i, H in enumerate(m) if H["cls"] == full)
            ok = o["cls"] == "orig" and not info.pickled and any(full == x[:len(full)] for x in info.chains)
            es, i, by = [], 0, [int(4 * x) for x in o["times"]]
            while i < len(G["tree"]):
                kids = G["tree"][i:i + by[len(es) % len(by)]]
                es.append([kids[0][0], kids[-1][1], "u%d" % len(es)])
                i += len(kids)
            return {"g": g, "name": full[at], "entries": es, "like": [like, at], "cls": "orig" if ok else "own",
                    "tier": "nxt" if o["named"] else full[at], "up": by}
        longer = [H["cls"] for H in m if H["kind"] == "I" and H["cls"][:n] == G["cls"] and len(H["cls"]) > n]
        c = _pick(longer, o["k"])
        if c is None or any(H["cls"][0] == G["cls"][0] and H["cls"] != c[:len(H["cls"])] and c != H["cls"][:len(c)]
                            for H in m if H["kind"] == "I"):
            return None
        like = next(i for i, H in enumerate(m) if H["cls"] == c)
        ok = o["cls"] == "orig" and not info.pickled and any(c == x[:len(c)] for x in info.chains)
        es = [[x[0], x[1], "k" + x[2].strip()] for x in M.level(G, n - 1)]
        return {"g": g, "name": c[n], "entries": es, "like": [like, n], "cls": "orig" if ok else "own",
                "tier": "nxt" if o["named"] else c[n]}

    @staticmethod
    def real(grid, a, info):
        from aligned_textgrid import custom_classes
        if a.get("new"):
            c = custom_classes([a["name"]], points=[0])[0]
            info.classes = dict(info.classes, **{a["name"]: c})
        elif a["cls"] == "orig":
            c = info.classes[a["name"]]
        else:
            c = grid[a["like"][0]][a["like"][1]].entry_class
        kw = {"pts": [a["pts"]]} if "pts" in a else {"tree": [e + [[]] for e in a["entries"]]}
        tier = build_group([a["name"]], [a["tier"]], [c], name_tiers=a["tier"] != a["name"], **kw)[0]
        grid[a["g"]].append(tier)

    @staticmethod
    def model(m, a, info):
        G = m[a["g"]]
        if "pts" in a:
            info.used = info.used | {a["name"]}
            G["pts"].append([[p[0], p[1], {}] for p in a["pts"]])
        elif "up" in a:
            i, new = 0, []
            for e in a["entries"]:
                x = M._node(e + [[]])
                x[3] = G["tree"][i:i + a["up"][len(new) % len(a["up"])]]
                i += len(x[3])
                new.append(x)
            G["tree"] = new
            G["cls"].insert(0, a["name"])
            G["tiers"].insert(0, a["tier"])
            return
        else:
            for x, e in zip(M.level(G, len(G["cls"]) - 1), a["entries"]):
                x[3] = [M._node(e + [[]])]
        G["cls"].append(a["name"])
        G["tiers"].append(a["tier"])


@op("concat")
class Concat:
    @staticmethod
    def gen(r):
        pts = []
        for _ in range(3):
            t, L = 0.0, []
            for _ in range(r.choice([0, 1, 2, 3])):
                t += r.choice([0.5, 0.25, 1.0])
                L.append([t, gen.label(r, quotes=False)])
            pts.append(L)
        return {"g": r.randrange(9), "tree": rel_tree(r, 4, r.choice([1, 2, 3])) if r.random() < 0.95 else [], "pts": pts,
                "same": r.random() < 0.2, "cls": r.choice(["own", "orig"])}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] % len(m)
        G = m[g]
        cls = o["cls"] if (info.orig_ok(G) if G["kind"] == "I" else not info.pickled) else "own"
        inc = M.gbounds(G)[1] or 0
        if G["kind"] == "I":
            if len(G["tree"]) > 12:
                return None
            tree = at(trim(o["tree"], len(G["cls"])), 0.0)
            if o["same"] and G["tree"] and G["tree"][0][0] == 0.0:
                tree = M.clone([{"tree": G["tree"][:2]}])[0]["tree"]
            return {"g": g, "names": list(G["cls"]), "tree": tree, "inc": inc, "cls": cls}
        if any(len(t) > 10 for t in G["pts"]):
            return None
        pts = [o["pts"][j % len(o["pts"])] for j in range(len(G["cls"]))]
        return {"g": g, "names": list(G["cls"]), "pts": pts, "inc": inc, "cls": cls}

    @staticmethod
    def real(grid, a, info):
        G = grid[a["g"]]
        cl = cls_of(G, info, a["names"], a["cls"])
        if "tree" in a:
            new = build_group(a["names"], a["names"], cl, a["tree"], name_tiers=False)
        else:
            new = build_group(a["names"], a["names"], cl, pts=a["pts"], name_tiers=False)
        G.concat(new)

    @staticmethod
    def model(m, a, info):
        G = m[a["g"]]
        if "tree" in a:
            new = [M._node(n) for n in a["tree"]]
            M.shift_nodes(new, a["inc"])
            G["tree"] += new
        else:
            for t, L in zip(G["pts"], a["pts"]):
                t += [[p[0] + a["inc"], p[1], {}] for p in L]


@op("cleanup")
class Cleanup:
    @staticmethod
    def gen(r):
        return {"lvl": r.choice(["grid", "grid", "group", "tier", "entry"]), "g": r.randrange(9), "t": r.randrange(9),
                "i": r.randrange(99)}

    @staticmethod
    def prep(m, o, info):
        if o["lvl"] == "grid":
            return {"lvl": "grid"}
        g = _pick(_igroups(m), o["g"])
        if g is None:
            return None
        t = o["t"] % len(m[g]["cls"])
        return {"lvl": o["lvl"], "g": g, "t": t, "i": o["i"] % len(M.level(m[g], t))}

    @staticmethod
    def real(grid, a, info):
        if a["lvl"] == "grid":
            grid.cleanup()
        elif a["lvl"] == "group":
            grid[a["g"]].cleanup()
        elif a["lvl"] == "tier":
            grid[a["g"]][a["t"]].cleanup()
        else:
            grid[a["g"]][a["t"]][a["i"]].cleanup()

    @staticmethod
    def model(m, a, info):
        if a["lvl"] == "grid":
            m[:] = M.cleaned(m)


@op("re_relate")
class ReRelate:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9)}

    @staticmethod
    def prep(m, o, info):
        return {"g": o["g"] % len(m)}

    @staticmethod
    def real(grid, a, info):
        grid[a["g"]].re_relate()

    @staticmethod
    def model(m, a, info):
        pass


@op("rename")
class Rename:
    @staticmethod
    def gen(r):
        return {"g": r.randrange(9), "t": r.randrange(9), "to": r.choice(["nm", "Word", "Word_0", "x y", "Phone", "", "", ""]) + r.choice(["", "", "_0", "_1", "7"]),
                "group": r.random() < 0.3, "like": r.randrange(20) if r.random() < 0.6 else None,
                "suffix": r.choice(["", "", "_0", "_0", "_1", "_2"])}

    @staticmethod
    def prep(m, o, info):
        g = o["g"] % len(m)
        t = o["t"] % len(m[g]["cls"])
        to = o["to"]
        if o.get("like") is not None:       # as another tier is called, or as a save would call a second one
            names = [n for x in m for n in x["tiers"]]
            to = names[o["like"] % len(names)].strip() + o["suffix"]
        if to[:1] in ("", "_", "7"):
            to = m[g]["cls"][t] + to
        return {"g": g, "t": t, "to": to, "group": o["group"]}

    @staticmethod
    def real(grid, a, info):
        if a["group"]:
            grid[a["g"]].name = "grp_%d" % a["g"]
        else:
            grid[a["g"]][a["t"]].name = a["to"]

    @staticmethod
    def model(m, a, info):
        if a["group"]:
            m[a["g"]]["name"] = "grp_%d" % a["g"]
        else:
            m[a["g"]]["tiers"][a["t"]] = a["to"]


# relative weights of the operations in an ordinary editing session
EDITS = {"relabel": 4, "feature": 2, "fuse": 8, "shift": 3, "stretch": 1, "move": 4, "point_move": 1, "append_word": 4,
         "point_append": 2, "split": 4, "reassign": 4, "drop_last": 1, "drop_first": 1, "merge_pop": 2, "blank_out": 2,
         "tier_concat": 1, "interleave": 3, "pop_level": 3,
         "append_group": 2, "append_tier": 2, "concat": 2, "cleanup": 2, "re_relate": 2, "rename": 2}


def random_op(r, weights=EDITS):
    names = sorted(weights)
    n = r.choices(names, [weights[k] for k in names])[0]
    o = OPS[n].gen(r)
    o["op"] = n
    return o
