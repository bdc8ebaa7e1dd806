"""Generated TextGrids: specifications, and an independent TextGrid writer.

A *spec* is plain JSON:

{"hiers": [{"kind": "I", "names": [...], "src": "wp|custom|base"}, {"kind": "P", ...}],
 "groups": [{"h": 0, "tiers": [tier names top to bottom], "tree": [[s, e, label, kids], ...]},
            {"h": 1, "tiers": [...], "points": [[[t, label], ...], ...]}],
 "order": [[file position of each level of the group], ...],
 "via": "str|path|kw|obj|groups", "fmt": ..., "enc": ..., "nl": "\\n" or "\\r\\n", "flat": bool}
"""
import json

LABELS = ["a", "the", "dog", "AO1", "", "", "sp", "ʃ", "日本", "x y", "it's", "{LG}", "1", "é", "ə̃",
          "<p>", "a=b", "𝔘", "w" * 40, "-", "_", "B", "K", "Z0", ".", "&", "\\n", "%d"]
QUOTED = ['say "hi"', '"', 'a""b', '"q"']
UNITS = [1 / 64, 0.01, 1 / 44100 * 441, 1 / 3, 0.001 * 7, 1.0, 1 / 4096 * 41]
INTERVAL_NAMES = [["Word", "Phone"], ["Word", "Phone"], ["Utt", "Wd", "Seg"], ["IP", "Wrd", "Syl", "Ph"],
                  ["Turn"], ["Sent", "Tok"], ["SequenceInterval"], ["word", "PHONE"]]
POINT_NAMES = [["Pt"], ["Tone"], ["Pitch", "Mark"], ["SequencePoint"], ["phone"]]
FORMATS = ["long_textgrid", "short_textgrid", "json", "textgrid_json"]
NEW_LEVELS = ["Foot", "Mora", "Clause", "Gesture", "Onset"]
SPEAKERS = ["KY25A", "spk one", "IVR", "s-2", "Ann"]


def label(r, quotes=True):
    if quotes and r.random() < 0.06:
        return r.choice(QUOTED)
    if r.random() < 0.35:
        return r.choice("abcdefghij") + str(r.randrange(1000))
    return r.choice(LABELS)


def _tree(r, depth, start, n, unit, width):
    """n sibling nodes from integer tick `start`, each `depth` levels deep."""
    out, at = [], start
    for _ in range(n):
        if depth == 1:
            d = r.choice([1, 1, 2, 3, 5, 8])
            out.append([at, at + d, label(r), []])
            at += d
        else:
            k = r.choice([1, 1, 2, 2, 3, 3, 4][:width + 2])
            kids = _tree(r, depth - 1, at, k, unit, width)
            out.append([at, kids[-1][1], label(r), kids])
            at = kids[-1][1]
    return out


def _scale(nodes, unit):
    for n in nodes:
        n[0] = n[0] * unit
        n[1] = n[1] * unit
        _scale(n[3], unit)


def _extend(nodes, end):
    while nodes:
        nodes[-1][1] = end
        nodes = nodes[-1][3]


def _blank(s, e, depth):
    return [s, e, "", [_blank(s, e, depth - 1)] if depth > 1 else [], "hole"]


def _hole(r, tree, depth):
    """One stretch that the file leaves out: loading fills it with blank entries."""
    new = json.loads(json.dumps(tree))
    t = r.randrange(depth)
    sibs = new
    for _ in range(t):
        sibs = r.choice(sibs)[3]
    i = r.randrange(len(sibs))
    if t == 0 and not 0 < i < len(sibs) - 1:
        return                        # the ends of a group are its extent
    if t and r.random() < 0.4:        # everything under one entry
        sibs[:] = [_blank(sibs[0][0], sibs[-1][1], depth - t)]
    else:
        sibs[i] = _blank(sibs[i][0], sibs[i][1], depth - t)
    cur = new
    for _ in range(depth):            # every tier keeps something of its own
        if all(len(n) > 4 for n in cur):
            return
        cur = [k for n in cur for k in n[3]]
    tree[:] = new


def _ragged(r, tree, depth):
    """A group that starts later or ends earlier than the others: loading brings it to their extent."""
    for i in r.choice([[0], [-1], [0, -1]]):
        if sum(len(n) <= 4 for n in tree) > 1:
            tree[i] = _blank(tree[i][0], tree[i][1], depth)


def names_of(hiers, g):
    """The class names of a group's tiers; a partial group lacks the lowest or the highest levels of its hierarchy."""
    names = hiers[g["h"]]["names"]
    return names[g.get("k0", 0):g.get("k", len(names))]


def spec(r, small=False, points=None, allow_groups=True, force_via=None, wp=None, min_groups=1, partial=0.2):
    unit = r.choice(UNITS)
    t0 = r.choice([0, 0, 0, 0, 7, 100, 400000])
    hiers, groups = [], []
    n_groups = max(min_groups, r.choice([1, 1, 1, 2, 2, 3]))
    big = None
    if not small and r.random() < 0.05:
        big = r.choice(["long", "long", "wide"])       # many entries, or many groups
        if big == "wide":
            n_groups = r.choice([6, 11, 13])
    shared = r.random() < 0.6
    pool = [list(x) for x in INTERVAL_NAMES]
    r.shuffle(pool)
    if wp:
        pool = [["Word", "Phone"]] + [p for p in pool if p[0] != "Word"]
    used = set()
    for gi in range(n_groups):
        if gi and shared:
            h = groups[0]["h"]
        else:
            names = next((p for p in pool if not (set(p) & used)), None)
            if names is None:
                h = groups[0]["h"]
            else:
                used |= set(names)
                src = "custom"
                if names == ["Word", "Phone"] and (wp or r.random() < 0.7):
                    src = "wp"
                if names == ["SequenceInterval"]:
                    src = "base"
                hiers.append({"kind": "I", "names": names, "src": src})
                if src == "custom" and r.random() < 0.3:
                    o = list(range(len(names)))
                    r.shuffle(o)
                    hiers[-1]["ro"] = o if r.random() < 0.5 else [names[j] for j in o]
                h = len(hiers) - 1
        names = hiers[h]["names"]
        full = [g for g in groups if g["h"] == h]
        k0, k = 0, len(names)
        if full and k > 1 and r.random() < partial:
            if r.random() < 0.5:
                k = r.randrange(1, k)             # a speaker without the lowest levels
            else:
                k0 = r.randrange(1, k)            # or without the highest ones
                if k - k0 > 1 and r.random() < 0.3:
                    k = r.randrange(k0 + 1, k)
        names = names[k0:k]
        n = r.choice([1, 2, 2, 3, 3, 4, 5] if not small else [1, 2, 2, 3])
        width = 1 if small else r.choice([1, 2, 3, 4])
        if big == "long" and not groups:
            n, width = r.choice([11, 14, 25, 40]), r.choice([1, 2]) if len(names) > 2 else width
        if big == "wide":
            n, width = r.choice([1, 2]), 1
        tree = _tree(r, len(names), t0, n, unit, width)
        groups.append({"h": h, "tiers": None, "tree": tree})
        if k < len(hiers[h]["names"]):
            groups[-1]["k"] = k
        if k0:
            groups[-1]["k0"] = k0
    end = max(g["tree"][-1][1] for g in groups)
    for g in groups:
        _extend(g["tree"], end)
    late = r.randrange(len(groups)) if len(groups) > 1 and r.random() < 0.15 else None
    for gi, g in enumerate(groups):
        if gi == late:
            _ragged(r, g["tree"], len(names_of(hiers, g)))
        elif r.random() < 0.2:
            _hole(r, g["tree"], len(names_of(hiers, g)))
        _scale(g["tree"], unit)
    style = r.choice(["spk", "cls", "mixed", "dup", "clash"])
    spk = list(SPEAKERS)
    r.shuffle(spk)
    spk += ["sp%02d" % k for k in range(len(groups))]
    for gi, g in enumerate(groups):
        names = names_of(hiers, g)
        if style == "spk":
            g["tiers"] = ["%s - %s" % (spk[gi], n.lower()) for n in names]
        elif style == "cls":
            g["tiers"] = ["%s%d" % (n, gi) for n in names]
        elif style == "clash":              # names that look like what a save makes of a repeated name
            g["tiers"] = ["%s_%d" % (n, gi + j + g.get("k0", 0)) for j, n in enumerate(names)]
        elif style == "mixed":
            g["tiers"] = [r.choice(["tier", "lvl", "q"]) + "%d.%d" % (gi, j) for j in range(len(names))]
        else:
            g["tiers"] = [names[j] if gi == 0 else "%s %d" % (names[j], gi) for j in range(len(names))]
    if points is None:
        points = r.random() < 0.3
    if points:
        for names in r.sample(POINT_NAMES, r.choice([1, 1, 2])):
            if len(names) + sum(len(x["names"]) for x in hiers if x["kind"] == "P") > 3:
                continue
            hiers.append({"kind": "P", "names": names, "src": "base" if names == ["SequencePoint"] else "custom"})
            pts = []
            for _ in names:
                k = r.choice([1, 2, 3, 4] if not big else [1, 4, 13, 20])
                if r.random() < 0.12:               # nothing marked yet
                    pts.append([])
                    continue
                ticks = sorted(r.sample(range(t0, max(end, t0 + 6) + 1), min(k, max(end, t0 + 6) + 1 - t0)))
                ticks = [t for t in ticks if t <= end] or [t0]
                pts.append([[t * unit, label(r, quotes=False)] for t in ticks])
            tn = ["pt%d %s" % (len(groups), n) for n in names]
            pos = r.randrange(len(groups) + 1)
            groups.insert(pos, {"h": len(hiers) - 1, "tiers": tn, "points": pts})
    s = {"hiers": hiers, "groups": groups}
    if allow_groups and force_via in (None, "groups") and len(groups) < 6 and r.random() < 0.05:
        # a speaker for whom nothing is transcribed yet; files have no empty interval tiers
        h = r.choice([g["h"] for g in groups if "tree" in g])
        groups.insert(r.randrange(len(groups) + 1), {"h": h, "tiers": ["new - %s" % n for n in hiers[h]["names"]], "tree": []})
        force_via = "groups"
    return with_files(r, s, force_via, allow_groups)


def twin(r, s):
    """A copy of a spec that differs in one label, of the same length in the file."""
    s = json.loads(json.dumps(s))
    nodes = []

    def rec(ns):
        for n in ns:
            nodes.append(n)
            rec(n[3])
    for g in s["groups"]:
        rec(g.get("tree", []))
    nodes = [n for n in nodes if n[2][:1].isascii() and n[2][:1].isalpha()]
    if nodes:
        n = r.choice(nodes)
        n[2] = r.choice("KQXZkqxz".replace(n[2][0], "")) + n[2][1:]
    return s


def with_files(r, s, force_via=None, allow_groups=True):
    """Choose how the grid is presented to the library."""
    s["via"] = force_via or r.choice(["str", "str", "path", "kw", "obj"] + (["groups"] if allow_groups else []))
    s["fmt"] = r.choice(FORMATS)
    s["enc"] = r.choice(["utf-8", "utf-8", "utf-16"])
    s["nl"] = r.choice(["\n", "\n", "\r\n"])
    order = []
    for g in s["groups"]:
        n = len(g["tiers"])
        o = list(range(n))
        if r.random() < 0.35:
            r.shuffle(o)
        order.append(o)
    s["order"] = order
    only_i = all("tree" in g for g in s["groups"])
    one_h = len({g["h"] for g in s["groups"]}) == 1
    same_order = all(o == order[0] for o in order) and not any("k" in g or "k0" in g for g in s["groups"])
    s["flat"] = bool(only_i and one_h and same_order and r.random() < 0.6)
    s["seq"] = r.choice(["ll", "ll", "ll", "tl", "lt", "tt"])
    s["merge"] = r.random() < 0.4      # points named in the same list as the intervals before them
    hs = [g["h"] for g in s["groups"]]
    if only_i and len(hs) > 1 and len(set(hs)) == len(hs) and s["via"] != "groups" and r.random() < 0.6:
        # one flat list of several hierarchies, the tiers of the groups mixed in the file
        s["flat"] = True
        pos, tops = [], []
        for g, o in zip(s["groups"], order):
            tops.append(len(pos) + o.index(0))
            pos += [len(pos) + j for j in range(len(o))]
        if r.random() < 0.7:
            r.shuffle(pos)
            at = sorted(pos.index(t) for t in tops)
            for a, t in zip(at, tops):      # groups come in the order of their top tiers
                pos[a] = t
        s["mix"] = pos
    return s


def tiers_of(s):
    """[(kind, tier name, class name, entries)] in file order."""
    out = []
    for g, o in zip(s["groups"], s["order"]):
        names = names_of(s["hiers"], g)
        if "levels" in g:                  # tiers as they are, nested or not
            for j in o:
                out.append(("I", g["tiers"][j], names[j], [list(e) for e in g["levels"][j]]))
        elif "tree" in g:
            levels, cur = [], g["tree"]
            for _ in names:
                levels.append([[n[0], n[1], n[2]] for n in cur if not (len(n) > 4 and n[4] and s["via"] != "groups")])
                cur = [k for n in cur for k in n[3]]
            for j in o:
                out.append(("I", g["tiers"][j], names[j], levels[j]))
        else:
            for j in o:
                out.append(("P", g["tiers"][j], names[j], [list(p) for p in g["points"][j]]))
    return mixed(s, out)


def mixed(s, flat):
    m = s.get("mix")
    return [flat[j] for j in m] if m and len(m) == len(flat) else flat


def extent(s):
    lo, hi = [], []
    for kind, _, _, es in tiers_of(s):
        for e in es:
            lo.append(e[0])
            hi.append(e[1] if kind == "I" else e[0])
    return min(lo), max(hi)


def _q(x):
    return x.replace('"', '""')


def render(s):
    """The bytes of the TextGrid file for a spec (our own writer, not praatio's)."""
    xmin, xmax = extent(s)
    tiers = tiers_of(s)
    fmt = s["fmt"]
    if fmt == "json":
        body = json.dumps({"start": xmin, "end": xmax, "tiers": {
            n: {"type": "IntervalTier" if k == "I" else "TextTier", "entries": es} for k, n, _, es in tiers}},
            ensure_ascii=False)
    elif fmt == "textgrid_json":
        body = json.dumps({"xmin": xmin, "xmax": xmax, "tiers": [
            {"class": "IntervalTier" if k == "I" else "TextTier", "name": n, "xmin": xmin, "xmax": xmax,
             "entries": es} for k, n, _, es in tiers]}, ensure_ascii=False)
    elif fmt == "short_textgrid":
        L = ['File type = "ooTextFile"', 'Object class = "TextGrid"', "", repr(xmin), repr(xmax), "<exists>",
             str(len(tiers))]
        for k, n, _, es in tiers:
            L += ['"IntervalTier"' if k == "I" else '"TextTier"', '"%s"' % _q(n), repr(xmin), repr(xmax),
                  str(len(es))]
            for e in es:
                L += [repr(v) for v in e[:-1]] + ['"%s"' % _q(e[-1])]
        body = "\n".join(L) + "\n"
    else:
        L = ['File type = "ooTextFile"', 'Object class = "TextGrid"', "", "xmin = %r " % xmin, "xmax = %r " % xmax,
             "tiers? <exists> ", "size = %d " % len(tiers), "item []: "]
        for i, (k, n, _, es) in enumerate(tiers):
            L += ["    item [%d]:" % (i + 1), '        class = "%s" ' % ("IntervalTier" if k == "I" else "TextTier"),
                  '        name = "%s" ' % _q(n), "        xmin = %r " % xmin, "        xmax = %r " % xmax]
            if k == "I":
                L.append("        intervals: size = %d " % len(es))
                for j, e in enumerate(es):
                    L += ["        intervals [%d]:" % (j + 1), "            xmin = %r " % e[0],
                          "            xmax = %r " % e[1], '            text = "%s" ' % _q(e[2])]
            else:
                L.append("        points: size = %d " % len(es))
                for j, e in enumerate(es):
                    L += ["        points [%d]:" % (j + 1), "            number = %r " % e[0],
                          '            mark = "%s" ' % _q(e[1])]
        body = "\n".join(L) + "\n"
    if fmt in ("json", "textgrid_json"):
        return body.encode(s["enc"])
    return body.replace("\n", s["nl"]).encode(s["enc"])
