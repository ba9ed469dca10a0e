"""Helpers shared by the property harnesses."""
import itertools

import numpy as np

from ..harness import H, Chk, els, shp, is_array
from ..scalars import SBool, SInt, is_sym, sand, sor, snot, simplies, scalar_eq, ite


def compositions(total, parts):
    """All vectors of `parts` non-negative integers with the given sum."""
    if parts == 1:
        yield (total,)
        return
    for k in range(total + 1):
        for r in compositions(total - k, parts - 1):
            yield (k,) + r


def offsets(sizes):
    o = [0]
    for s in sizes[:-1]:
        o.append(o[-1] + s)
    return o


def flat(xs):
    return [y for x in xs for y in x]


def ivals(v, name, n, dt, lo=None, hi=None):
    """n symbolic elements of numpy type dt (integers, or reals for floats)."""
    dt = np.dtype(dt)
    if dt.kind == "f":
        return [v.real("%s[%d]" % (name, i), dt, lo, hi) for i in range(n)]
    return v.ints(name, n, dt, lo, hi)


def is_perm(chk, idx, n, msg):
    """idx (list of values) is a permutation of range(n)."""
    if len(idx) != n:
        chk.fail("%s: %d entries instead of %d" % (msg, len(idx), n))
    seen = set()
    for x in idx:
        chk.that(sand(x >= 0, x < n), msg + ": out of range")
        seen.add(int(x))
    if len(seen) != n:
        chk.fail(msg + ": repeated entries %s" % sorted(seen))


def multiset_eq(chk, got, want, msg):
    """Same multiset of values, for sorted-comparable symbolic elements."""
    if len(got) != len(want):
        chk.fail("%s: %d elements instead of %d" % (msg, len(got), len(want)))
    for x in want:
        c1 = 0
        c2 = 0
        for y in got:
            c1 = c1 + b2i(scalar_eq(x, y))
        for y in want:
            c2 = c2 + b2i(scalar_eq(x, y))
        chk.that(c1 == c2, msg)


def b2i(c):
    if is_sym(c):
        return c.as_int()
    return 1 if c else 0
