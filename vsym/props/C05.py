"""parallel_unique: sorted distinct values of a distributed array."""
from .common import *

BOUNDS = ("1-4 ranks, up to 4 elements with unrestricted values, up to 6 over small alphabets; "
          "all combinations of arr_sorted, return_counts and repartition_output")
ASSUMPTIONS = ["with arr_sorted=True the array is globally sorted (documented precondition)"]


class Unique(H):
    dt = "i8"
    lo = hi = None
    srt = False
    counts = True
    repart = False
    stride = False

    def inputs(self, v):
        a = [ivals(v, "a%d" % r, n, self.dt, self.lo, self.hi) for r, n in enumerate(self.sizes)]
        if self.srt:
            f = flat(a)
            for x, y in zip(f, f[1:]):
                v.assume(x <= y)
        return dict(a=a)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        a = env.arr(inp["a"][r], self.dt)
        if self.stride:
            b = env.np.zeros((2 * len(a),), dtype=self.dt)
            b[::2] = a
            a = b[::2]
        kw = {}
        if self.srt:
            kw["arr_sorted"] = True
        if self.counts:
            kw["return_counts"] = True
        if self.repart:
            kw["repartition_output"] = True
        res = ps.parallel_unique(a, comm=comm, **kw)
        return dict(res=res, a=a)

    def oracle(self, chk, inp, outs):
        vals, cnts = [], []
        lens = []
        for r, o in enumerate(outs):
            chk.eqlist(els(o["a"]), inp["a"][r], "input array is unchanged")
            u = o["res"]
            if self.counts:
                if not isinstance(u, tuple) or len(u) != 2:
                    chk.fail("expected (values, counts)")
                u, c = u
                if shp(c) != shp(u):
                    chk.fail("counts and values differ in length")
                cnts += els(c)
            chk.arr(u, els(u), "unique values", dt=self.dt)
            lens.append(len(els(u)))
            vals += els(u)
        for x, y in zip(vals, vals[1:]):
            chk.that(x < y, "values strictly increasing over ranks")
        orig = flat(inp["a"])
        for i, x in enumerate(vals):
            n = 0
            for y in orig:
                n = n + b2i(scalar_eq(x, y))
            chk.that(n >= 1, "value occurs in the input")
            if self.counts:
                chk.eq(cnts[i], n, "count of a value")
        for y in orig:
            chk.that(sor(*[scalar_eq(x, y) for x in vals]), "every input value is present")
        if self.repart:
            tot = len(vals)
            want = [tot // self.P + (1 if r < tot % self.P else 0) for r in range(self.P)]
            if max(lens) - min(lens) > 1:
                chk.fail("repartitioned output is unbalanced: %s" % lens)


def cases(tier):
    L = []

    def add(sizes, w=1, **k):
        nm = "unique-" + ".".join(map(str, sizes)) + "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Unique", dict(name=nm, P=len(sizes), sizes=list(sizes), w=w, **k)))
    dts = ["i8", "f8", "u4", "i2", "f4", "u1", "u8"]
    k = 0
    for tot in range(0, 4):
        for P in (1, 2, 3):
            for c in compositions(tot, P):
                add(c, w=tot ** 3 * P, dt=dts[k % 7], repart=bool(k % 2))
                k += 1
                if tot > 1:
                    add(c, w=tot ** 2 * P, srt=True, repart=bool(k % 3 == 0))
    for c in [(2, 1), (1, 0, 2), (1, 1, 1)]:
        add(c, w=50, counts=False)
        add(c, w=50, counts=False, repart=True, srt=True)
    for c in [(2, 2), (3, 1), (1, 3)]:
        add(c, w=200, repart=True)
        add(c, w=100, srt=True)
    for c in [(1, 1, 1, 1), (2, 0, 1, 1), (1, 0, 1, 2), (2, 1, 2), (1, 1, 3), (3, 1, 1), (1, 2, 1, 2)]:
        add(c, w=150, srt=True, repart=True)
        add(c, w=150, lo=0, hi=1, repart=True)
    add((1, 1, 1, 1, 1), w=150, srt=True)
    add((2, 1), w=20, stride=True)
    add((2, 1), w=20, stride=True, srt=True)
    # a communicator which is not COMM_WORLD
    add((1, 1), w=50, idle=1, repart=True)
    add((2, 0, 1), w=50, idle=1, repart=True, srt=True)
    add((0, 2), w=50, idle=2)
    if tier == "thorough":
        for c in list(compositions(4, 3)):
            add(c, w=1500, repart=True, dt="i4")
        for c in list(compositions(6, 3)) + list(compositions(5, 4)):
            add(c, w=1000, srt=True)
        for c in list(compositions(5, 3)):
            add(c, w=1000, lo=0, hi=2)
    return L
