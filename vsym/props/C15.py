"""util.ranges: assign_ranges and sum_ranges."""
from .common import *
from .. import core
from ..scalars import SReal

BOUNDS = ("0-3 ranges (thorough 4) over 0-6 elements with every combination of lengths (0 included) and gaps, 1D and "
          "2D data, integer and floating point types, with and without weights and normalisation")
ASSUMPTIONS = ["floating point sums are modelled with exact arithmetic (values are small integers stored as floats)",
               "ranges are sorted and do not overlap, as documented; sums fit in the result type; total weights are "
               "not zero"]


class Ranges(H):
    mpi = False
    n = 5
    nr = 2
    dt = "i4"
    odt = "i8"
    tail = ()
    vmax = None

    def ranges(self, v):
        off, ln = [], []
        pos = 0
        for i in range(self.nr):
            pos += v.choice("gap%d" % i, self.n - pos + 1)
            k = v.choice("len%d" % i, self.n - pos + 1)
            off.append(pos)
            ln.append(k)
            pos += k
        return off, ln

    def vals(self, v, name, n, dt, lo=None, hi=None):
        dt = np.dtype(dt)
        if dt.kind == "f":
            return [v.int("%s[%d]" % (name, i), -8 if lo is None else lo, 8 if hi is None else hi, "i8")
                    for i in range(n)]
        return v.ints(name, n, dt, lo, hi)

    def rowlen(self):
        return int(np.prod(self.tail, dtype=int))

    def ia(self, env, vals, dt):
        return env.np.asarray([int(x) for x in vals], dtype=dt) if len(vals) else env.np.zeros((0,), dtype=dt)


def idt(dt):
    dt = np.dtype(dt)
    return dt if dt.kind != "f" else np.dtype("i8")


class Assign(Ranges):
    aslist = False

    def inputs(self, v):
        off, ln = self.ranges(v)
        return dict(off=off, ln=ln, a=self.vals(v, "a", self.n * self.rowlen(), self.dt),
                    val=self.vals(v, "v", self.nr * self.rowlen(), self.dt))

    def rank(self, env, comm, r, inp):
        u = env.load("virgo.util.ranges")
        a = env.arr(inp["a"], idt(self.dt), (self.n,) + tuple(self.tail)).astype(self.dt)
        val = env.arr(inp["val"], idt(self.dt), (self.nr,) + tuple(self.tail)).astype(self.dt)
        off, ln = inp["off"], inp["ln"]
        if not self.aslist:
            off, ln = self.ia(env, off, self.odt), self.ia(env, ln, self.odt)
        u.assign_ranges(a, off, ln, val)
        return dict(a=a, val=val)

    def oracle(self, chk, inp, outs):
        w = self.rowlen()
        want = list(inp["a"])
        for i, (o, l) in enumerate(zip(inp["off"], inp["ln"])):
            for j in range(o * w, (o + l) * w):
                want[j] = inp["val"][i * w + j % w]
        chk.arr(outs[0]["a"], want, "array after assigning to the ranges", dt=self.dt, shape=(self.n,) + tuple(self.tail))
        chk.eqlist(els(outs[0]["val"]), inp["val"], "values unchanged")


class AssignBad(Ranges):
    """Two or more ranges which overlap, are out of order or leave the array must be refused."""

    def inputs(self, v):
        off = [v.choice("o%d" % i, self.n + 2) for i in range(self.nr)]
        ln = [v.choice("l%d" % i, self.n + 1) for i in range(self.nr)]
        pos, bad = 0, False
        for o, l in zip(off, ln):
            bad = bad or o < pos or o + l > self.n
            pos = o + l
        return dict(off=off, ln=ln, bad=bad, a=self.vals(v, "a", self.n, self.dt),
                    val=self.vals(v, "v", self.nr, self.dt))

    def rank(self, env, comm, r, inp):
        u = env.load("virgo.util.ranges")
        a = env.arr(inp["a"], self.dt)
        try:
            u.assign_ranges(a, self.ia(env, inp["off"], self.odt), self.ia(env, inp["ln"], self.odt),
                            env.arr(inp["val"], self.dt))
        except ValueError:
            return dict(a=a, err=True)
        return dict(a=a, err=False)

    def oracle(self, chk, inp, outs):
        want = list(inp["a"])
        if inp["bad"]:
            chk.that(outs[0]["err"], "ranges which overlap or leave the array were accepted")
        else:
            chk.that(not outs[0]["err"], "valid ranges were refused")
            for i, (o, l) in enumerate(zip(inp["off"], inp["ln"])):
                for j in range(o, o + l):
                    want[j] = inp["val"][i]
        chk.eqlist(els(outs[0]["a"]), want, "array after assigning to the ranges")


class Sum(Ranges):
    rdt = None
    weight = None
    normalize = False
    lo = hi = None

    def inputs(self, v):
        off, ln = self.ranges(v)
        d = dict(off=off, ln=ln, a=self.vals(v, "a", self.n * self.rowlen(), self.dt, self.lo, self.hi))
        if self.weight:
            d["wt"] = self.vals(v, "w", self.n, self.weight, 1, 3)
        return d

    def rank(self, env, comm, r, inp):
        u = env.load("virgo.util.ranges")
        a = env.arr(inp["a"], idt(self.dt), (self.n,) + tuple(self.tail)).astype(self.dt)
        kw = {}
        if self.rdt:
            kw["dtype"] = np.dtype(self.rdt)
        if self.weight:
            kw["weight"] = env.arr(inp["wt"], idt(self.weight)).astype(self.weight)
        if self.normalize:
            kw["normalize"] = True
        res = u.sum_ranges(a, self.ia(env, inp["off"], self.odt), self.ia(env, inp["ln"], self.odt), **kw)
        return dict(res=res, a=a, wt=kw.get("weight"))

    def oracle(self, chk, inp, outs):
        w = self.rowlen()
        rdt = np.dtype(self.rdt or self.dt)
        want = []
        for o, l in zip(inp["off"], inp["ln"]):
            for c in range(w):
                s, sw = 0, 0
                for j in range(o, o + l):
                    wt = big(inp["wt"][j]) if self.weight else 1
                    s = s + big(inp["a"][j * w + c]) * wt
                    sw = sw + wt
                if self.normalize and l > 0:
                    s = real(s) / real(sw)
                want.append(s)
        got = outs[0]["res"]
        chk.arr(got, want, "sums over the ranges", dt=rdt, shape=(self.nr,) + tuple(self.tail))
        chk.eqlist(els(outs[0]["a"]), inp["a"], "input unchanged")
        if self.weight:
            chk.eqlist(els(outs[0]["wt"]), inp["wt"], "weights unchanged")


def big(x):
    """Unbounded integer with the value of x."""
    if isinstance(x, SInt):
        return SInt(x.t, x.lo, x.hi, None)
    return int(x)


def real(x):
    if isinstance(x, SInt):
        return SReal(core.z3.ToReal(x.t), np.dtype("f8"))
    return float(x)


def cases(tier):
    L = []

    def add(cls, w=5, **k):
        nm = cls + "".join("-%s%s" % (a, "x".join(map(str, b)) if isinstance(b, tuple) else b)
                           for a, b in sorted(k.items()))
        L.append((cls, dict(name=nm, w=w, **k)))
    T = tier == "thorough"
    for nr in (0, 1, 2, 3):
        for n in (0, 1, 4) + ((6,) if T else ()):
            add("Assign", n=n, nr=nr, w=1 + n ** nr // 10)
    if T:
        add("Assign", n=5, nr=4, w=100)
    add("Assign", n=3, nr=2, aslist=True)
    for dt, odt in [("u8", "u8"), ("f4", "i4"), ("i2", "u4")]:
        for nr in (1, 2):
            add("Assign", n=4, nr=nr, dt=dt, odt=odt)
    for nr in (1, 2, 3):
        add("Assign", n=3, nr=nr, tail=(2,))
    for nr in (2,) + ((3,) if T else ()):
        add("AssignBad", n=3, nr=nr, w=30)
    for nr in (0, 1, 2, 3):
        for n in (0, 1, 3):
            add("Sum", n=n, nr=nr, w=1 + n ** nr // 10, lo=-1000, hi=1000)
    add("Sum", n=5, nr=2, lo=-10 ** 6, hi=10 ** 6, w=10)
    for dt, rdt in [("u1", "i8"), ("i4", "i8"), ("u4", "u8"), ("i2", "f8"), ("f4", "f8"), ("f8", None), ("u2", "i4")]:
        for nr in (1, 2):
            add("Sum", n=3, nr=nr, dt=dt, rdt=rdt, odt="u4")
    for nr in (1, 2):
        add("Sum", n=3, nr=nr, tail=(2,), dt="i4", rdt="i8")
        add("Sum", n=3, nr=nr, tail=(3,), dt="f8")
        for tail in ((), (2,)):
            add("Sum", n=3, nr=nr, tail=tail, dt="f8", normalize=True)
            add("Sum", n=3, nr=nr, tail=tail, dt="i4", rdt="f8", normalize=True)
            add("Sum", n=3, nr=nr, tail=tail, dt="f8", weight="f4", normalize=True)
            add("Sum", n=3, nr=nr, tail=tail, dt="f4", rdt="f8", weight="f8")
            add("Sum", n=3, nr=nr, tail=tail, dt="i2", rdt="i8", weight="i4")
            add("Sum", n=3, nr=nr, tail=tail, dt="i4", rdt="f8", weight="u1", normalize=True)
    if T:
        add("Sum", n=5, nr=3, lo=-10 ** 6, hi=10 ** 6, w=10)
        add("Sum", n=5, nr=3, dt="f8", weight="f8", normalize=True, w=10)
        add("Sum", n=4, nr=4, lo=-10 ** 6, hi=10 ** 6, w=10)
    return L
