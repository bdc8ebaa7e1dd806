"""A simulated world: grids of the library next to their reference models."""
import os
import pathlib
import random

from . import disk, gen, model as M, observe as O, ops


class Violation(Exception):
    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Classes:
    """Entry classes handed to the library, shared by all grids of one run."""

    def __init__(self):
        self.cache = {}

    def get(self, h):
        key = (h["kind"], tuple(h["names"]), h["src"])
        if key not in self.cache:
            from aligned_textgrid import Word, Phone, SequenceInterval, SequencePoint, custom_classes
            if h["src"] == "wp":
                c = [Word, Phone]
            elif h["src"] == "base":
                c = [SequencePoint] if h["kind"] == "P" else [SequenceInterval]
            elif h["kind"] == "P":
                c = custom_classes(list(h["names"]), points=list(range(len(h["names"]))))
            elif h.get("ro"):
                got = custom_classes(list(h["names"]), return_order=list(h["ro"]))
                where = [x if isinstance(x, int) else h["names"].index(x) for x in h["ro"]]
                c = [got[where.index(j)] for j in range(len(where))]
            else:
                c = custom_classes(list(h["names"]))
            self.cache[key] = c
        return self.cache[key]

    def snapshot(self):
        """The hierarchy of every class the user owns."""
        from aligned_textgrid import Word, Phone, SequenceInterval
        from aligned_textgrid.sequences.sequences import Top, Bottom
        own = [Word, Phone, SequenceInterval] + [c for k in sorted(self.cache) for c in self.cache[k]]
        out = []
        for c in own:
            up, dn = getattr(c, "superset_class", None), getattr(c, "subset_class", None)
            out.append((c.__name__, c, up, dn, None if up in (None, Top) else up.subset_class,
                        None if dn in (None, Bottom) else dn.superset_class))
        return out


def info_for(spec, classes):
    cl, chains, used = {}, [], set()
    for h in spec["hiers"]:
        for n, c in zip(h["names"], classes.get(h)):
            cl[n] = c
            used.add(n)
        if h["kind"] == "I":
            chains.append(list(h["names"]))
    return ops.Info(cl, chains, used)


def entry_classes(spec, classes):
    nested, kinds = [], []
    for g, o in zip(spec["groups"], spec["order"]):
        cs = classes.get(spec["hiers"][g["h"]])
        cs = [cs[g.get("k0", 0) + j] for j in o]
        if spec.get("merge") and "points" in g and nested and kinds[-1] == "I":
            nested[-1] += cs
        else:
            nested.append(cs)
        kinds.append("P" if "points" in g else "I")
    seq = spec.get("seq", "ll")
    if spec["flat"]:
        hs = {g["h"] for g in spec["groups"]}
        flat = gen.mixed(spec, [c for g in nested for c in g]) if len(hs) > 1 else list(nested[0])
        return tuple(flat) if seq[0] == "t" else flat
    out = [tuple(g) if seq[1] == "t" else g for g in nested]
    return tuple(out) if seq[0] == "t" else out


def write_file(spec, path):
    disk.put(path, gen.render(spec))


def load(spec, classes, path=None, keep=None):
    """Hand the spec to the library the way spec["via"] says."""
    from aligned_textgrid import AlignedTextGrid
    ec = entry_classes(spec, classes)
    via = spec["via"]
    if via in ("str", "path", "kw"):
        if via == "str" and spec["flat"] and spec["hiers"] == [{"kind": "I", "names": ["SequenceInterval"], "src": "base"}]:
            return AlignedTextGrid(path)
        if via == "str":
            return AlignedTextGrid(path, ec)
        if via == "path":
            return AlignedTextGrid(pathlib.Path(path), entry_classes=ec)
        return AlignedTextGrid(textgrid_path=path, entry_classes=ec)
    if via == "obj":
        from praatio.data_classes.textgrid import Textgrid
        from praatio.data_classes.interval_tier import IntervalTier
        from praatio.data_classes.point_tier import PointTier
        tg = Textgrid()
        for k, name, _, es in gen.tiers_of(spec):
            span = {} if es else dict(zip(("minT", "maxT"), gen.extent(spec)))
            tg.addTier((IntervalTier if k == "I" else PointTier)(name, [tuple(e) for e in es], **span), reportingMode="silence")
        if keep is not None:
            keep.append(tg)
        return AlignedTextGrid(textgrid=tg, entry_classes=ec)
    return AlignedTextGrid(list(loose(spec, classes)))


def loose(spec, classes):
    """The groups, in no grid."""
    groups = O.Loose()
    for g, o in zip(spec["groups"], spec["order"]):
        h = spec["hiers"][g["h"]]
        groups.append(ops.build_group(gen.names_of(spec["hiers"], g), g["tiers"], classes.get(h)[g.get("k0", 0):], g.get("tree"), g.get("points"), order=o))
    return groups


class Slot:
    def __init__(self, spec, classes, grid, m=None):
        self.spec = spec
        self.info = info_for(spec, classes)
        self.grid = grid
        self.m = m if m is not None else M.from_spec(spec)


def diff_model(slot, feats=True, tol=0.0):
    return O.same_tree(O.content(slot.grid, feats=feats), M.content(slot.m, feats=feats), tol)


def rng(*parts):
    return random.Random(":".join(str(p) for p in parts))
