"""util.match: positions of values in another array."""
from .common import *

BOUNDS = ("0-4 values looked up among 0-4 values (thorough 5), each anywhere in the range of its type, duplicates "
          "included; int16-uint64 and float64, native and foreign byte order; sorted, unsorted, precomputed order")
ASSUMPTIONS = ["no NaN; the two types have a common integer type (no signed with uint64)"]


class Match(H):
    mpi = False
    dt1 = "i8"
    dt2 = "i8"
    how = "plain"        # plain, sorted, index
    dup = False

    def inputs(self, v):
        a = ivals(v, "a", self.n1, np.dtype(self.dt1).newbyteorder("="))
        b = ivals(v, "b", self.n2, np.dtype(self.dt2).newbyteorder("="))
        if self.how == "sorted":
            for x, y in zip(b, b[1:]):
                v.assume(x <= y if self.dup else x < y)
        elif not self.dup:
            for i in range(self.n2):
                for j in range(i):
                    v.assume(snot(scalar_eq(b[i], b[j])))
        return dict(a=a, b=b)

    def rank(self, env, comm, r, inp):
        m = env.load("virgo.util.match")
        a = env.arr(inp["a"], np.dtype(self.dt1).newbyteorder("=")).astype(self.dt1)
        b = env.arr(inp["b"], np.dtype(self.dt2).newbyteorder("=")).astype(self.dt2)
        kw = {}
        if self.how == "sorted":
            kw["arr2_sorted"] = True
        elif self.how == "index":
            kw["arr2_index"] = env.np.argsort(b.astype(np.dtype(self.dt2).newbyteorder("=")), kind="mergesort")
        return dict(p=m.match(a, b, **kw), a=a, b=b)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        if shp(o["p"]) != (self.n1,):
            chk.fail("result has shape %s" % (shp(o["p"]),))
        if np.dtype(o["p"].dtype) != np.dtype("i8"):
            chk.fail("result has dtype %s" % o["p"].dtype)
        for x, p in zip(inp["a"], els(o["p"])):
            p = int(p)
            if p == -1:
                chk.that(sand(*[snot(scalar_eq(x, y)) for y in inp["b"]]), "value present but not found")
            else:
                chk.that(0 <= p < self.n2, "index out of range")
                chk.that(scalar_eq(x, inp["b"][p]), "index of a different value")
        chk.eqlist(els(o["a"]), inp["a"], "first array unchanged")
        chk.eqlist(els(o["b"]), inp["b"], "second array unchanged")


def cases(tier):
    L = []

    def add(n1, n2, **k):
        nm = "%din%d" % (n1, n2) + "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Match", dict(name=nm, n1=n1, n2=n2, w=(n1 + 1) * 4 ** n2, **k)))
    types = [("i8", "i8"), ("u8", "u8"), ("i4", "i8"), ("u4", "i8"), (">i8", "<i8"), ("<i4", ">i4"), (">u8", ">u8"),
             ("u2", "u8"), ("f8", "f8"), (">i2", ">i8"), ("i8", "u4")]
    types += [(a + x, b + y) for a, b in ((">", ">"), (">", "<"), ("<", ">"), ("<", "<"))
              for x, y in (("i8", "i4"), ("i4", "i8"), ("u4", "i8"), ("i8", "i2"), ("u8", "u4"), ("f8", "f4"))]
    types = sorted(set(types))
    T = tier == "thorough"
    for how in ("plain", "sorted", "index"):
        for n1 in (0, 1, 3):
            for n2 in (0, 1, 2, 3):
                add(n1, n2, how=how)
        for a, b in types:
            add(2, 2, how=how, dt1=a, dt2=b)
        for a, b in types[::3]:
            add(2, 3, how=how, dt1=a, dt2=b)
        add(2, 3, how=how, dup=True)
        add(1, 4, how=how)
        add(1, 4, how=how, dup=True)
        if T:
            add(2, 4, how=how, dup=True)
            add(1, 5, how=how)
            add(4, 3, how=how)
            for a, b in types:
                add(3, 3, how=how, dt1=a, dt2=b, dup=True)
    return L
