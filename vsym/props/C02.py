"""repartition: moves a distributed array to any new distribution, in order."""
from .common import *

BOUNDS = ("1-4 ranks, every input distribution of up to 5 rows and, per case, every output distribution "
          "(symbolic), rows of up to 6 values, C-ordered, Fortran-ordered and strided inputs")
ASSUMPTIONS = ["sum of the requested sizes equals the number of rows (the documented precondition)"]


class Repart(H):
    dt = "i8"
    tail = ()
    layout = "C"

    def inputs(self, v):
        tot = sum(self.sizes)
        nv = int(np.prod(self.tail, dtype=int))
        a = [ivals(v, "a%d" % r, n * nv, self.dt) for r, n in enumerate(self.sizes)]
        if hasattr(self, "want"):
            want = list(self.want)
        else:
            want = []
            left = tot
            for r in range(self.P - 1):
                k = v.choice("want%d" % r, left + 1)
                want.append(k)
                left -= k
            want.append(left)
        return dict(a=a, want=want)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        shape = (self.sizes[r],) + tuple(self.tail)
        a = env.arr(inp["a"][r], self.dt, shape)
        if self.layout == "F":
            a = env.np.asfortranarray(a)
        elif self.layout == "S":
            b = env.np.zeros((2 * shape[0],) + shape[1:], dtype=self.dt)
            b[::2] = a
            a = b[::2]
        nd = inp["want"]
        if getattr(self, "ndtype", None):
            nd = env.np.asarray(nd, dtype=self.ndtype)
        before = a.copy()
        res = ps.repartition(a, nd, comm=comm)
        return dict(res=res, same=(before, a))

    def oracle(self, chk, inp, outs):
        nv = int(np.prod(self.tail, dtype=int))
        allv = flat(inp["a"])
        pos = 0
        for r, o in enumerate(outs):
            n = inp["want"][r]
            chk.arr(o["res"], allv[pos * nv:(pos + n) * nv], "repartitioned rows on rank %d" % r, dt=self.dt,
                    shape=(n,) + tuple(self.tail))
            pos += n
            chk.eqlist(els(o["same"][1]), els(o["same"][0]), "input array is unchanged")


def cases(tier):
    L = []

    def add(sizes, w=1, **k):
        nm = "repart-" + ".".join(map(str, sizes)) + "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Repart", dict(name=nm, P=len(sizes), sizes=list(sizes), w=w, **k)))
    dts = ["i8", "f8", "u4", "i2", "f4", "u1"]
    k = 0
    for c in [(3,), (0,)] + list(compositions(3, 2)) + [(0, 0), (4, 0), (0, 4), (3, 2)]:
        add(c, dt=dts[k % 6], w=5)
        k += 1
    for c in list(compositions(3, 3)) + [(0, 5, 0), (2, 0, 3)]:
        add(c, dt=dts[k % 6], w=10)
        k += 1
    for c in [(1, 0, 2, 1), (0, 0, 0, 4), (4, 0, 0, 0), (1, 1, 1, 1)]:
        add(c, dt=dts[k % 6], w=20)
        k += 1
    for c in [(3,), (1, 2), (2, 0, 1)]:
        for t in [(2,), (3,), (2, 3), (1,)]:
            add(c, tail=list(t), w=10)
        add(c, tail=[0], w=10)
        for lay in "FS":
            add(c, tail=[2], layout=lay, w=10)
            add(c, tail=[], layout=lay, w=10)
        add(c, tail=[2, 2], layout="F", w=10)
    for c in [(1, 2), (2, 0, 1)]:
        for t in [(2, 1, 2), (1, 1, 1, 2), (1, 0, 2)]:
            add(c, tail=list(t), w=10)
    add((1, 2), ndtype="i4", w=5)
    add((1, 2, 1), ndtype="i2", w=5)
    # a communicator which is not COMM_WORLD
    add((1, 2), w=10, idle=1)
    add((2, 0, 1), w=10, idle=2, tail=[2])
    if tier == "thorough":
        for c in list(compositions(6, 3)) + list(compositions(4, 4)) + list(compositions(3, 5)):
            add(c, w=50, dt="i4")
    return L
