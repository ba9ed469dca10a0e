"""reduce_elements and parallel_bincount: distributed scatter-reductions."""
from .common import *

BOUNDS = ("1-4 ranks, up to 5 destination rows, up to 4 updates with every index symbolic, integer and "
          "exactly representable real data; sum/max/min as MPI operators and as numpy ufuncs; "
          "bincount with bin values over the stated ranges")
ASSUMPTIONS = ["indexes lie in [0, total rows); bin values are non-negative (documented preconditions)",
               "floating point sums are exact reals (rounding and summation order outside the claim)"]


class Reduce(H):
    dt = "i8"
    idt = "i8"
    tail = ()
    op = "np.add"
    ulayout = "C"
    alayout = "C"

    def inputs(self, v):
        nv = int(np.prod(self.tail, dtype=int))
        lim = dict(lo=-1000, hi=1000) if np.dtype(self.dt).kind in "if" else dict(lo=0, hi=60)
        a = [ivals(v, "a%d" % r, n * nv, self.dt, **lim) for r, n in enumerate(self.sizes)]
        u = [ivals(v, "u%d" % r, n * nv, self.dt, **lim) for r, n in enumerate(self.nupd)]
        tot = sum(self.sizes)
        idx = [v.ints("i%d" % r, n, self.idt, 0, max(0, tot - 1)) for r, n in enumerate(self.nupd)]
        return dict(a=a, u=u, idx=idx)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        mk = {"C": lambda x: x, "F": lambda x: env.np.asfortranarray(x)}
        a = mk[self.alayout](env.arr(inp["a"][r], self.dt, (self.sizes[r],) + tuple(self.tail)))
        u = mk[self.ulayout](env.arr(inp["u"][r], self.dt, (self.nupd[r],) + tuple(self.tail)))
        idx = env.arr(inp["idx"][r], self.idt)
        which, name = self.op.split(".")
        op = getattr(env.np if which == "np" else env.mod("mpi4py.MPI"), name)
        ps.reduce_elements(a, u, idx, op, comm=comm)
        return dict(a=a, u=u, idx=idx)

    def oracle(self, chk, inp, outs):
        nv = int(np.prod(self.tail, dtype=int))
        a = [x for x in flat(inp["a"])]
        o = self.op.split(".")[1].lower()
        from ..scalars import smin, smax
        f = {"add": lambda x, y: x + y, "sum": lambda x, y: x + y, "maximum": smax, "max": smax,
             "minimum": smin, "min": smin}[o]
        if not is_sym_any(a) and not is_sym_any(flat(inp["u"])):
            a = [x.item() if hasattr(x, "item") else x for x in a]
        for i, k in enumerate(flat(inp["idx"])):
            k = int(k)
            for j in range(nv):
                x = flat(inp["u"])[i * nv + j]
                x = x.item() if hasattr(x, "item") and not is_sym(x) else x
                a[k * nv + j] = f(a[k * nv + j], x)
        pos = 0
        for r, out in enumerate(outs):
            n = self.sizes[r] * nv
            chk.arr(out["a"], a[pos:pos + n], "reduced array on rank %d" % r, dt=self.dt,
                    shape=(self.sizes[r],) + tuple(self.tail))
            pos += n
            chk.eqlist(els(out["u"]), inp["u"][r], "updates are unchanged")
            chk.eqlist(els(out["idx"]), inp["idx"][r], "index is unchanged")


def is_sym_any(xs):
    return any(is_sym(x) for x in xs)


class Bincount(H):
    xdt = "i8"
    wdt = None
    minlength = None
    rsizes = None       # sizes of a supplied result array
    rdt = None
    xmax = 3

    def inputs(self, v):
        lo = getattr(self, "xmin", 0)
        x = [v.ints("x%d" % r, n, self.xdt, lo, self.xmax) for r, n in enumerate(self.sizes)]
        w = None
        if self.wdt:
            w = [ivals(v, "w%d" % r, n, self.wdt, 0 if self.wdt[0] == "u" else -20, 20)
                 for r, n in enumerate(self.sizes)]
        return dict(x=x, w=w)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        x = env.arr(inp["x"][r], self.xdt)
        kw = {}
        if inp["w"] is not None:
            kw["weights"] = env.arr(inp["w"][r], self.wdt)
        if self.minlength is not None:
            kw["minlength"] = self.minlength
        res = None
        if self.rsizes is not None:
            res = env.np.zeros(self.rsizes[r], dtype=self.rdt or "i8")
            kw["result"] = res
        out = ps.parallel_bincount(x, comm=comm, **kw)
        return dict(out=out, x=x, same=res is None or out is res)

    def oracle(self, chk, inp, outs):
        xs = flat(inp["x"])
        ws = flat(inp["w"]) if inp["w"] is not None else [1] * len(xs)
        got = flat(els(o["out"]) for o in outs)
        want_dt = self.rdt or self.wdt or "i8"
        for r, o in enumerate(outs):
            chk.that(np.dtype(o["out"].dtype) == np.dtype(want_dt), "result dtype")
            chk.that(o["same"], "supplied result array is returned")
            chk.eqlist(els(o["x"]), inp["x"][r], "input is unchanged")
        n = len(got)
        if self.rsizes is None:
            m = max([int(x) for x in xs]) + 1
            if self.minlength is not None:
                m = max(m, self.minlength)
            chk.eq(n, m, "number of bins")
            ln = [len(els(o["out"])) for o in outs]
            if max(ln) - min(ln) > 1:
                chk.fail("unbalanced result %s" % ln)
        else:
            chk.eq([len(els(o["out"])) for o in outs], list(self.rsizes), "result sizes")
        for b in range(n):
            tot = 0
            for x, w in zip(xs, ws):
                w = w.item() if hasattr(w, "item") else w
                c = scalar_eq(x, b)
                tot = tot + (ite(c, w, 0) if is_sym(c) else (w if c else 0))
            chk.eq(got[b], tot, "bin %d" % b)


def cases(tier):
    L = []

    def addr(sizes, nupd, w=1, **k):
        nm = "reduce-" + ".".join(map(str, sizes)) + "-by-" + ".".join(map(str, nupd)) + \
            "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Reduce", dict(name=nm, P=len(sizes), sizes=list(sizes), nupd=list(nupd), w=w, **k)))

    def addb(sizes, w=1, **k):
        nm = "bincount-" + ".".join(map(str, sizes)) + "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Bincount", dict(name=nm, P=len(sizes), sizes=list(sizes), w=w, **k)))
    ops = ["np.add", "MPI.SUM", "np.maximum", "MPI.MAX", "np.minimum", "MPI.MIN"]
    dts = ["i8", "f8", "i4", "f4", "u2"]
    k = 0
    for s, n in [((3,), (2,)), ((2,), (3,)), ((2, 1), (1, 1)), ((1, 2), (2, 1)), ((0, 2), (1, 2)), ((2, 0), (1, 2)),
                 ((1, 1), (0, 2)), ((1, 1), (0, 0)), ((1, 1, 1), (1, 1, 1)), ((0, 2, 0), (1, 0, 2)),
                 ((2, 0, 1), (0, 3, 0)), ((0, 0, 2), (1, 1, 0)), ((2, 0, 0), (1, 0, 1)), ((1, 0, 1, 0), (1, 0, 0, 1))]:
        for j in range(3):
            addr(s, n, w=20 * sum(n), op=ops[k % 6], dt=dts[k % 5], idt=["i8", "i4", "u4"][k % 3])
            k += 1
    for s, n in [((2,), (2,)), ((1, 1), (1, 1)), ((1, 0, 2), (1, 1, 0))]:
        for t in [(2,), (2, 2), (0,), (1, 1, 2)]:
            for op in ops[:2]:
                addr(s, n, w=30, tail=list(t), op=op)
        for op in ops[:2]:
            addr(s, n, w=30, tail=[2], op=op, ulayout="F")
            addr(s, n, w=30, tail=[2], op="np.add", alayout="F", dt=["i8", "f8"][op == "np.add"])
    for c in [(1,), (3,), (1, 1), (2, 1), (0, 2), (2, 0), (1, 1, 1), (0, 2, 0), (0, 0, 1)]:
        addb(c, w=20 * sum(c), xmax=[3, 5, 2][k % 3], xdt=["i8", "i4", "u4", "u1", "i2"][k % 5])
        k += 1
        addb(c, w=20 * sum(c), xmax=2, wdt=["i8", "f8", "i4", "f4"][k % 4])
        addb(c, w=20 * sum(c), xmax=2, minlength=[5, 1, 2][k % 3])
    for c, rs in [((2,), (4,)), ((1, 1), (2, 2)), ((2, 1), (0, 4)), ((1, 1), (5, 0)), ((1, 0, 1), (1, 0, 3))]:
        addb(c, w=30, xmax=3, rsizes=list(rs))
        addb(c, w=30, xmax=3, rsizes=list(rs), rdt="f8", wdt="i4")
    addb((1, 1), w=20, xmin=126, xmax=127, xdt="i1")
    addb((1, 1), w=20, xmin=254, xmax=255, xdt="u1")
    addb((1, 1), w=20, xmax=2, xdt="u8")
    addb((1, 1), w=20, xmax=2, xdt="u8", minlength=4)
    # repeated values on one rank, in any order
    for i, dt in enumerate(("u1", "i4", "u8", "u4", "i2")):
        addb((3,), w=60, xmax=2, xdt=dt, wdt=["i8", "f8"][i % 2])
        addb((3, 1), w=60, xmax=2, xdt=dt, wdt=["f4", "i8"][i % 2])
    # a communicator which is not COMM_WORLD
    addr((1, 1), (1, 1), w=30, idle=1)
    addr((0, 2), (2, 0), w=30, idle=2, op="MPI.SUM")
    addb((1, 1), w=30, idle=1, xmax=2)
    addb((2, 0), w=30, idle=2, xmax=2, minlength=4)
    addb((1, 1), w=30, idle=1, xmax=3, rsizes=[1, 3])
    # reordered rows of arrays with more than two dimensions need not be contiguous
    for s, n in [((2,), (2,)), ((1, 1), (2, 1))]:
        addr(s, n, w=30, tail=[2, 2], op="np.add", ulayout="F")
        addr(s, n, w=30, tail=[2, 2], op="MPI.SUM", ulayout="F")
    if tier == "thorough":
        for s, n in [((3, 2), (3, 1)), ((2, 1, 2), (2, 1, 1)), ((1, 1, 1, 1), (1, 1, 1, 1)), ((2, 2), (2, 2))]:
            for op in ops:
                addr(s, n, w=500, op=op)
            addr(s, n, w=500, tail=[2])
        for c in [(3, 1), (2, 2), (1, 2, 1), (1, 1, 1, 1)]:
            addb(c, w=500, xmax=4)
            addb(c, w=500, xmax=4, wdt="f8")
    return L
