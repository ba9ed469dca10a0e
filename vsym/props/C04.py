"""parallel_match: global index of an equal element of a distributed array."""
from .common import *

BOUNDS = ("1-4 ranks, up to 3+3 elements with unrestricted values (up to 4+3 over small alphabets); "
          "arr2 unsorted, or parallel sorted by the caller with the flag set")
ASSUMPTIONS = ["with arr2_sorted=True arr2 is globally sorted (documented precondition)",
               "arrays of types without a common type representing all values of both (such as int64 and uint64) hold "
               "values which it represents"]


class Match(H):
    dt1 = dt2 = "i8"
    lo = hi = None
    srt = False
    stride = False

    def inputs(self, v):
        a1 = [ivals(v, "a%d" % r, n, self.dt1, self.lo, self.hi) for r, n in enumerate(self.n1)]
        a2 = [ivals(v, "b%d" % r, n, self.dt2, self.lo, self.hi) for r, n in enumerate(self.n2)]
        if self.srt:
            f = flat(a2)
            for x, y in zip(f, f[1:]):
                v.assume(x <= y)
        return dict(a1=a1, a2=a2)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        a1 = env.arr(inp["a1"][r], self.dt1)
        a2 = env.arr(inp["a2"][r], self.dt2)
        if self.stride:
            b = env.np.zeros((2 * len(a1),), dtype=self.dt1)
            b[::2] = a1
            a1 = b[::2]
            b = env.np.zeros((2 * len(a2),), dtype=self.dt2)
            b[::2] = a2
            a2 = b[::2]
        kw = dict(arr2_sorted=True) if self.srt else {}
        idx = ps.parallel_match(a1, a2, comm=comm, **kw)
        return dict(idx=idx, a1=a1, a2=a2)

    def oracle(self, chk, inp, outs):
        b = flat(inp["a2"])
        for r, o in enumerate(outs):
            chk.eqlist(els(o["a1"]), inp["a1"][r], "first array is unchanged")
            chk.eqlist(els(o["a2"]), inp["a2"][r], "second array is unchanged")
            if not is_array(o["idx"]) or shp(o["idx"]) != (self.n1[r],):
                chk.fail("result on rank %d does not have one entry per element" % r)
            for x, i in zip(inp["a1"][r], els(o["idx"])):
                k = int(i)
                if k == -1:
                    for y in b:
                        chk.that(snot(scalar_eq(x, y)), "element reported unmatched has an equal element")
                elif not 0 <= k < len(b):
                    chk.fail("index %d out of range" % k)
                else:
                    chk.eq(x, b[k], "matched element has the same value")


# pairs of types whose common type represents every value of both, then the rest (with values it represents)
MIXED = [("i4", "i8"), ("i8", "i4"), ("u4", "i8"), ("i8", "u4"), ("u4", "u8"), ("u8", "u4"), ("i2", "u2"), ("u1", "i8"),
         ("i8", "i2"), ("f8", "i4"), ("i4", "f8"), ("f4", "f8"), ("f8", "f4")]
BIG = [("i8", "u8"), ("u8", "i8"), ("i8", "f8"), ("f8", "i8")]


def cases(tier):
    L = []

    def add(n1, n2, w=1, **k):
        nm = "match-" + ".".join(map(str, n1)) + "-in-" + ".".join(map(str, n2)) + \
            "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Match", dict(name=nm, P=len(n1), n1=list(n1), n2=list(n2), w=w, **k)))
    dts = ["i8", "f8", "u4", "i2", "f4", "u1", "u8", "i8"]
    k = 0
    pairs = [((n,), (m,)) for n in (0, 1, 2) for m in (0, 1, 2, 3)]
    pairs += [((1, 1), c) for c in list(compositions(2, 2)) + [(0, 0), (0, 1)]]
    pairs += [((2, 0), c) for c in compositions(2, 2)] + [((0, 1), c) for c in compositions(3, 2)]
    pairs += [((0, 0), (1, 1)), ((1, 0), (3, 0))]
    pairs += [((1, 0, 0), c) for c in compositions(2, 3)] + [((0, 1, 1), (1, 0, 1)), ((1, 0, 1), (0, 2, 0))]
    for a, b in pairs:
        d = dts[k % len(dts)]
        add(a, b, w=5 * (sum(a) + 1) * (sum(b) + 1) * len(a), dt1=d, dt2=d)
        k += 1
        if k % 2 or len(a) > 1:
            add(a, b, w=5 * (sum(a) + 1) * (sum(b) + 1) * len(a), srt=True)
    for a, b in [((2, 1), (1, 2)), ((1, 2), (2, 1)), ((3, 0), (0, 3)), ((1, 2), (3, 0))]:
        add(a, b, w=200, lo=-1, hi=0)
        add(a, b, w=200, lo=-1, hi=1, srt=True)
    for a, b in [((1, 1, 1), (1, 1, 1)), ((2, 0, 1), (1, 0, 2)), ((0, 2, 0), (2, 1, 1))]:
        add(a, b, w=200, lo=0, hi=1)
        add(a, b, w=200, lo=0, hi=2, srt=True)
    add((1, 0, 1, 0), (1, 0, 0, 1), w=100, srt=True)
    add((0, 1, 0, 1), (0, 1, 1, 0), w=100, lo=0, hi=1)
    add((1, 1), (1, 1), w=20, stride=True)
    add((1, 1), (1, 1), w=20, stride=True, srt=True)
    for a, b in MIXED:
        add((1, 1), (1, 1), w=30, dt1=a, dt2=b)
        add((2,), (1,), w=30, dt1=a, dt2=b, srt=True)
    for a, b in BIG:
        add((1, 1), (1, 1), w=30, dt1=a, dt2=b, lo=0 if "u8" in (a, b) else -2**53, hi=2**53)
    # a communicator which is not COMM_WORLD
    add((1, 1), (2, 0), w=50, idle=1)
    add((2, 0), (0, 1), w=50, idle=2)
    add((1, 1), (1, 1), w=50, idle=1, srt=True)
    if tier == "thorough":
        for a, b in [((2, 1), (1, 2)), ((1, 1), (2, 2)), ((1, 1, 1), (1, 1, 1)), ((2, 2), (2, 1))]:
            add(a, b, w=3000, srt=True)
        for a, b in [((1, 1), (2, 1)), ((2, 1), (1, 1)), ((1, 0, 1), (1, 1, 1))]:
            add(a, b, w=3000)
        for a, b in [((2, 2), (2, 2)), ((2, 1, 1), (2, 0, 2)), ((1, 1, 1), (2, 1, 1))]:
            add(a, b, w=2000, lo=0, hi=2, srt=True)
            add(a, b, w=2000, lo=0, hi=1)
    return L
