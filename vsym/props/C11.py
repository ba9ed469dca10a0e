"""match_halos and consistent_match: halo matching by shared particles."""
from .common import *

BOUNDS = ("1-3 ranks, up to 4+4 particles whose ids and group memberships (-1..2) are symbolic, 1-3 halos "
          "distributed in every listed way; consistency check with up to 3+3 halos and all match indexes symbolic")
ASSUMPTIONS = ["particle ids are unique within a snapshot; group numbers lie in -1..N-1; group arrays are signed",
               "floating point is not involved except in the splitting weights of the parallel sort (executed "
               "concretely)"]


class Halos(H):
    gdt = "i4"
    gdt2 = "i4"
    idt = "i8"
    idt2 = None
    fixids = True
    gmax = 1
    first = 0           # lowest number of a halo of the second snapshot which has particles

    def inputs(self, v):
        n1, n2 = sum(self.n1), sum(self.n2)
        if self.fixids == "same":
            ids1 = [10 + i for i in range(n1)]
            ids2 = [10 + (n2 - 1 - i) for i in range(n2)]
        elif self.fixids:
            ids1 = list(range(n1))
            # a symbolic arrangement: each particle of snapshot 2 is one of snapshot 1's or new
            ids2 = [v.int("id2_%d" % i, 0, max(n1, n2), None) for i in range(n2)]
        else:
            ids1 = [v.int("id1_%d" % i, 0, n1 + 1, None) for i in range(n1)]
            ids2 = [v.int("id2_%d" % i, 0, n1 + 1, None) for i in range(n2)]
        for ids in (ids1, ids2):
            for i in range(len(ids)):
                for j in range(i):
                    v.assume(ids[i] != ids[j])
        nh = sum(self.nh)
        g1 = [v.int("g1_%d" % i, -1, nh - 1, None) for i in range(n1)]
        g2 = [v.int("g2_%d" % i, -1, self.gmax, None) for i in range(n2)]
        if self.first:
            g2 = [ite(scalar_eq(g, -1), -1, g + self.first) for g in g2]
        return dict(ids1=ids1, ids2=ids2, g1=g1, g2=g2)

    def rank(self, env, comm, r, inp):
        mt = env.load("virgo.mpi.merger_tree")

        def part(x, sizes, dt):
            o = offsets(sizes)[r]
            return env.arr([tocast(y, dt) for y in x[o:o + sizes[r]]], dt)
        return mt.match_halos(part(inp["g1"], self.n1, self.gdt), part(inp["ids1"], self.n1, self.idt),
                              part(inp["g2"], self.n2, self.gdt2), part(inp["ids2"], self.n2, self.idt2 or self.idt),
                              self.nh[r], comm=comm)

    def oracle(self, chk, inp, outs):
        for r, o in enumerate(outs):
            if not is_array(o) or shp(o) != (self.nh[r],):
                chk.fail("rank %d must get one entry per local halo" % r)
        got = flat(els(o) for o in outs)
        nh = sum(self.nh)
        for h in range(nh):
            cnt = []
            for g in range(self.gmax + 1):
                c = 0
                for i1, a in zip(inp["ids1"], inp["g1"]):
                    for i2, b in zip(inp["ids2"], inp["g2"]):
                        c = c + b2i(sand(scalar_eq(i1, i2), scalar_eq(a, h), scalar_eq(b, g + self.first)))
                cnt.append(c)
            m = got[h]
            none = sand(*[scalar_eq(c, 0) for c in cnt])
            best = [sand(c > 0, *([c > d for d in cnt[:g]] + [c >= d for d in cnt[g + 1:]]))
                    for g, c in enumerate(cnt)]
            chk.that(simplies(none, scalar_eq(m, -1)), "halo %d without shared particles is unmatched" % h)
            for g in range(self.gmax + 1):
                chk.that(simplies(best[g], scalar_eq(m, g + self.first)),
                         "halo %d is matched to the halo receiving most particles (lowest number on ties)" % h)


def tocast(x, dt):
    from ..scalars import cast_scalar
    return cast_scalar(x, np.dtype(dt)) if is_sym(x) else np.dtype(dt).type(x)


class Consistent(H):
    dt = "i8"

    def inputs(self, v):
        a, b = sum(self.n1), sum(self.n2)
        return dict(m12=v.ints("m12", a, self.dt, -1, b - 1), m21=v.ints("m21", b, self.dt, -1, a - 1))

    def rank(self, env, comm, r, inp):
        mt = env.load("virgo.mpi.merger_tree")
        o1, o2 = offsets(self.n1)[r], offsets(self.n2)[r]
        return mt.consistent_match(env.arr(inp["m12"][o1:o1 + self.n1[r]], self.dt),
                                   env.arr(inp["m21"][o2:o2 + self.n2[r]], self.dt), comm=comm)

    def oracle(self, chk, inp, outs):
        for r, o in enumerate(outs):
            if not is_array(o) or shp(o) != (self.n1[r],):
                chk.fail("rank %d must get one entry per local halo" % r)
        got = flat(els(o) for o in outs)
        for i, x in enumerate(inp["m12"]):
            mutual = sor(*[sand(scalar_eq(x, j), scalar_eq(y, i)) for j, y in enumerate(inp["m21"])])
            chk.eq(got[i], b2i(mutual), "entry %d is 1 exactly for a mutual match" % i)


# types of group numbers and ids of both snapshots, and group numbers which need the wider type
MIXED = [("i2", "i8", "i8", "i8", 40000), ("i4", "i8", "u8", "u8", 2**40), ("i8", "i2", "i4", "i8", 3),
         ("i1", "i4", "u4", "u8", 200)]


def cases(tier):
    L = []

    def addh(n1, n2, nh, w=1, **k):
        nm = "halos-%s-%s-%s" % tuple(".".join(map(str, x)) for x in (n1, n2, nh)) + \
            "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Halos", dict(name=nm, P=len(n1), n1=list(n1), n2=list(n2), nh=list(nh), w=w, **k)))

    def addc(n1, n2, w=1, **k):
        nm = "consistent-%s-%s" % (".".join(map(str, n1)), ".".join(map(str, n2))) + \
            "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Consistent", dict(name=nm, P=len(n1), n1=list(n1), n2=list(n2), w=w, **k)))
    addh((1,), (1,), (1,), w=5)
    addh((2,), (2,), (2,), w=50)
    addh((2,), (2,), (1,), w=50, gdt="i8")
    addh((0,), (2,), (1,), w=5)
    addh((2,), (0,), (2,), w=5)
    addh((1, 1), (1, 1), (1, 1), w=300)
    addh((1, 1), (1, 1), (0, 1), w=300, gdt="i8", gdt2="i4")
    addh((1, 1), (2, 0), (2, 0), w=300)
    addh((0, 2), (1, 1), (1, 2), w=300)
    addh((2, 0), (0, 2), (3, 0), w=300)
    addh((3,), (3,), (1,), w=300)
    addh((2, 1), (1, 2), (1, 0), w=600)
    addh((4,), (4,), (1,), w=300, fixids="same", gmax=2)
    addh((4,), (4,), (2,), w=300, fixids="same")
    addh((2, 2), (3, 1), (0, 1), w=900, fixids="same", gmax=2)
    addh((2, 1, 1), (0, 4, 0), (1, 0, 0), w=900, fixids="same")
    addh((1, 3), (2, 2), (1, 1), w=900, fixids="same")
    addh((1, 0, 1), (0, 1, 0), (1, 1, 1), w=200)
    addh((0, 1, 0), (1, 0, 1), (0, 2, 2), w=200)
    for g1, g2, i1, i2, first in MIXED:
        addh((2,), (2,), (2,), w=50, gdt=g1, gdt2=g2, idt=i1, idt2=i2, first=first)
        addh((1, 1), (2, 0), (1, 1), w=300, gdt=g1, gdt2=g2, idt=i1, idt2=i2, first=first)
    for a, b in [((1,), (1,)), ((2,), (2,)), ((3,), (2,)), ((0,), (2,)), ((2,), (0,)), ((1, 1), (1, 1)),
                 ((2, 0), (0, 2)), ((0, 2), (2, 0)), ((1, 1), (2, 1)), ((2, 1), (1, 1)), ((1, 0, 1), (0, 2, 0)),
                 ((1, 1, 1), (1, 1, 0)), ((0, 0, 2), (1, 0, 1))]:
        addc(a, b, w=30 * sum(a) * sum(b), dt="i8" if sum(a) % 2 else "i4")
    # a communicator which is not COMM_WORLD
    addh((1, 1), (1, 1), (1, 1), w=300, idle=1, fixids="same")
    addh((0, 2), (2, 0), (1, 1), w=300, idle=2, fixids="same")
    addc((1, 1), (1, 1), w=50, idle=1)
    addc((0, 2), (2, 0), w=50, idle=2)
    if tier == "thorough":
        addh((3,), (3,), (2,), w=3000, max_paths=None)
        addh((2, 1), (2, 1), (1, 1), w=3000)
        addh((1, 1, 1), (1, 1, 1), (1, 1, 0), w=3000)
        addh((2, 2), (2, 2), (1, 0), w=3000, gmax=1)
        addh((2,), (2,), (2,), w=300, fixids=False, gmax=2)
        addc((2, 2), (2, 2), w=800)
        addc((1, 1, 1), (1, 1, 1), w=800)
    return L
