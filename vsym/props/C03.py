"""fetch_elements: gather arbitrary global elements of a distributed array."""
from .common import *

BOUNDS = ("1-4 ranks, up to 5 rows, up to 4 requested indexes in total with every index value symbolic, "
          "rows of up to 4 values, C/Fortran-ordered and strided inputs, with and without a result array")
ASSUMPTIONS = ["indexes lie in [0, total number of rows) (documented precondition)"]


class Fetch(H):
    dt = "i8"
    idt = "i8"
    tail = ()
    layout = "C"
    rlayout = None      # None: no result array; "C", "F", "S"

    def inputs(self, v):
        nv = int(np.prod(self.tail, dtype=int))
        a = [ivals(v, "a%d" % r, n * nv, self.dt) for r, n in enumerate(self.sizes)]
        tot = sum(self.sizes)
        idx = [v.ints("i%d" % r, n, self.idt, 0, max(tot - 1, 0)) for r, n in enumerate(self.nidx)]
        return dict(a=a, idx=idx)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        shape = (self.sizes[r],) + tuple(self.tail)
        a = env.arr(inp["a"][r], self.dt, shape)
        if self.layout == "F":
            a = env.np.asfortranarray(a)
        elif self.layout == "S":
            b = env.np.zeros((2 * shape[0],) + shape[1:], dtype=self.dt)
            b[::2] = a
            a = b[::2]
        idx = env.arr(inp["idx"][r], self.idt)
        res = None
        rshape = (self.nidx[r],) + tuple(self.tail)
        if self.rlayout:
            res = env.np.zeros(rshape, dtype=self.dt)
            if self.rlayout == "F":
                res = env.np.asfortranarray(res)
            elif self.rlayout == "S":
                res = env.np.zeros((2 * rshape[0],) + rshape[1:], dtype=self.dt)[::2]
        out = ps.fetch_elements(a, idx, result=res, comm=comm)
        return dict(out=out, res=None if res is None else res.copy(), idx=idx, a=a)

    def oracle(self, chk, inp, outs):
        nv = int(np.prod(self.tail, dtype=int))
        allv = flat(inp["a"])
        for r, o in enumerate(outs):
            want = []
            for i in inp["idx"][r]:
                i = int(i)
                want += allv[i * nv:(i + 1) * nv]
            shape = (self.nidx[r],) + tuple(self.tail)
            if self.rlayout:
                chk.that(o["out"] is None, "nothing is returned when a result array is given")
                chk.arr(o["res"], want, "result array on rank %d" % r, dt=self.dt, shape=shape)
            else:
                chk.arr(o["out"], want, "fetched rows on rank %d" % r, dt=self.dt, shape=shape)
            chk.eqlist(els(o["idx"]), inp["idx"][r], "index array is unchanged")
            chk.eqlist(els(o["a"]), inp["a"][r], "source array is unchanged")


def cases(tier):
    L = []

    def add(sizes, nidx, w=1, **k):
        nm = "fetch-" + ".".join(map(str, sizes)) + "-at-" + ".".join(map(str, nidx)) + \
            "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Fetch", dict(name=nm, P=len(sizes), sizes=list(sizes), nidx=list(nidx), w=w, **k)))
    dts = ["i8", "f8", "u4", "i2", "f4", "u1"]
    k = 0
    for s in [(3,), (1,), (2, 1), (1, 2), (0, 3), (3, 0), (4, 1), (1, 1)]:
        for n in [(0,), (1,), (3,)] if len(s) == 1 else [(2, 1), (0, 2), (3, 0), (0, 0)]:
            add(s, n, dt=dts[k % 6], w=8 * sum(n), idt=["i8", "i4", "u8", "i8"][k % 4])
            k += 1
    for s in [(1, 1, 1), (0, 2, 1), (2, 0, 1), (2, 1, 0), (0, 0, 2), (1, 0, 0)]:
        for n in [(1, 1, 1), (2, 0, 1), (0, 3, 0), (0, 0, 2)]:
            add(s, n, dt=dts[k % 6], w=30)
            k += 1
    for s, n in [((1, 0, 2, 1), (1, 0, 1, 1)), ((0, 1, 0, 2), (0, 2, 1, 0))]:
        add(s, n, w=40)
    for s, n in [((3,), (2,)), ((1, 2), (2, 1)), ((2, 0, 1), (1, 2, 0))]:
        for t in [(2,), (2, 2), (1,), (0,)]:
            add(s, n, tail=list(t), w=20)
            add(s, n, tail=list(t), rlayout="C", w=20)
        add(s, n, rlayout="C", w=20)
        for lay in "FS":
            add(s, n, tail=[2], layout=lay, w=20)
            add(s, n, tail=[2], rlayout=lay, w=20)
        add(s, n, layout="S", w=20)
        add(s, n, rlayout="S", w=20)
    for s, n in [((1, 2), (2, 1)), ((2, 0, 1), (1, 2, 0))]:
        for t in [(2, 1, 2), (1, 1, 1, 2), (1, 0, 2)]:
            add(s, n, tail=list(t), w=20)
            add(s, n, tail=list(t), rlayout="C", w=20)
    # a communicator which is not COMM_WORLD
    add((1, 2), (2, 1), w=20, idle=1)
    add((2, 0, 1), (0, 2, 1), w=30, idle=1, tail=[2])
    add((1, 1), (2, 0), w=30, idle=2, rlayout="C")
    if tier == "thorough":
        for s, n in [((3, 2), (4, 1)), ((2, 2, 1), (2, 1, 1)), ((2, 2), (2, 3)), ((1, 1, 1, 1), (1, 1, 1, 1)),
                     ((2, 0, 3), (2, 2, 1)), ((1, 1, 1, 1, 1), (1, 1, 1, 0, 0)), ((3, 3), (2, 2))]:
            add(s, n, w=500)
            add(s, n, w=500, tail=[2], idt="i4")
    return L
