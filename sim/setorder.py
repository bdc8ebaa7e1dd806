"""Seed-controlled iteration order for sets built inside the library.

Classes hash by address, so the order in which a real ``set`` of classes is
walked differs from process to process.  Inside the library's modules the name
``set`` is bound to ``SimSet``: insertion ordered by default, and permuted by
the run's PRNG when the run asks for it.
"""
import sys

_rng = None
stats = {"permuted": 0}


def use(rng):
    global _rng
    _rng = rng


class _SetType(type):
    """``isinstance(x, set)`` keeps its meaning in the library."""
    def __instancecheck__(cls, x):
        return isinstance(x, _set)

    def __subclasscheck__(cls, c):
        return issubclass(c, _set)


_set = set


class SimSet(set, metaclass=_SetType):
    def __init__(self, it=()):
        items = list(it)
        super().__init__(items)
        order, seen = [], set()
        for x in items:
            if x not in seen:
                seen.add(x)
                order.append(x)
        if _rng is not None and len(order) > 1:
            _rng.shuffle(order)
            stats["permuted"] += 1
        self._order = order

    def _live(self):
        out = [x for x in self._order if set.__contains__(self, x)]
        if len(out) != set.__len__(self):
            out += sorted((x for x in set.__iter__(self) if x not in out), key=repr)
        return out

    def __iter__(self):
        return iter(self._live())

    def pop(self):
        live = self._live()
        if not live:
            raise KeyError("pop from an empty set")
        set.discard(self, live[0])
        return live[0]

    def __repr__(self):
        return repr(set(self._live()))


def _wrap(name):
    real = getattr(set, name)

    def op(self, *a):
        out = real(self, *a)
        if type(out) is not _set:
            return out
        order = list(self._live()) + [y for x in a if hasattr(x, "__iter__") for y in x]
        return SimSet([x for x in order if x in out])
    op.__name__ = name
    setattr(SimSet, name, op)


for _n in ("__or__", "__and__", "__sub__", "__xor__", "union", "intersection", "difference",
           "symmetric_difference", "copy"):
    _wrap(_n)


def install():
    for name, mod in list(sys.modules.items()):
        if name == "aligned_textgrid" or name.startswith("aligned_textgrid."):
            if mod is not None and "set" not in vars(mod):
                mod.set = SimSet
