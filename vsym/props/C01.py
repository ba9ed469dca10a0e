"""parallel_sort: in-place global sort with an optional sorting index."""
from .common import *

BOUNDS = ("1-5 ranks, up to 6 elements in total (any distribution listed, empty ranks included), "
          "element values unrestricted over the dtype (or over a 2-3 value alphabet for the larger sizes)")
ASSUMPTIONS = ["floating point keys are compared as exact reals; NaN keys are outside the claim",
               "rank schedule: ranks interleave only at communication calls"]


class Sort(H):
    dt = "i8"
    lo = hi = None
    index = True
    stride = 1
    use_default_comm = False

    def inputs(self, v):
        return dict(a=[ivals(v, "a%d" % r, n, self.dt, self.lo, self.hi) for r, n in enumerate(self.sizes)])

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        n = self.sizes[r]
        if self.stride == 1:
            a = env.arr(inp["a"][r], self.dt)
            view = a
        else:
            a = env.np.zeros(max(1, self.stride * n), dtype=self.dt)
            view = a[::self.stride][:n]
            view[:] = env.arr(inp["a"][r], self.dt)
        kw = {} if self.use_default_comm else dict(comm=comm)
        idx = ps.parallel_sort(view, return_index=self.index, **kw)
        back = None
        if self.index:
            back = ps.fetch_elements(env.arr(inp["a"][r], self.dt), idx, comm=comm)
        return dict(arr=view.copy(), idx=idx, back=back)

    def oracle(self, chk, inp, outs):
        orig = flat(inp["a"])
        for r, o in enumerate(outs):
            chk.arr(o["arr"], els(o["arr"]), "sorted array", dt=self.dt, shape=(self.sizes[r],))
        g = flat(els(o["arr"]) for o in outs)
        for x, y in zip(g, g[1:]):
            chk.that(x <= y, "sorted order")
        if not self.index:
            multiset_eq(chk, g, orig, "sorted array is a permutation of the input")
            for o in outs:
                chk.that(o["idx"] is None, "no index requested")
            return
        for r, o in enumerate(outs):
            if not is_array(o["idx"]) or shp(o["idx"]) != (self.sizes[r],):
                chk.fail("index array on rank %d does not have the length of the local array" % r)
        ix = flat(els(o["idx"]) for o in outs)
        is_perm(chk, ix, len(orig), "sorting index is a permutation")
        for x, i in zip(g, ix):
            chk.eq(x, orig[int(i)], "sorted element is the input element named by the index")
        chk.eqlist(flat(els(o["back"]) for o in outs), g, "fetch_elements(original, index) gives the sorted array")


def cases(tier):
    L = []

    def add(sizes, w=1, **k):
        nm = "sort-" + ".".join(map(str, sizes)) + "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("Sort", dict(name=nm, P=len(sizes), sizes=list(sizes), w=w, **k)))
    dts = ["i8", "f8", "u4", "i4", "u8", "f4", "i2", "u1", "i8"]
    k = 0
    full = [((n,), n) for n in range(0, 5)]
    for tot in range(0, 5):
        full += [(c, tot) for c in compositions(tot, 2)]
    for tot in range(1, 4):
        full += [(c, tot) for c in compositions(tot, 3)]
    full += [((1, 1, 0, 1), 3), ((0, 2, 0, 1), 3), ((1, 0, 0, 2), 3), ((0, 0, 0, 1), 1)]
    for c, tot in full:
        add(c, w=tot ** 3 * len(c), dt=dts[k % len(dts)])
        k += 1
    add((2, 1, 1), w=300, dt="i8")
    add((2, 2), w=100, index=False)
    add((1, 0, 2), w=60, index=False)
    add((2, 1), w=20, use_default_comm=True)
    add((2, 1), w=20, stride=2)
    add((0, 3), w=20, stride=2, dt="f8")
    # many duplicates
    for c in [(3, 3), (1, 5), (5, 1), (2, 4)]:
        add(c, w=250, lo=0, hi=1)
    for c in [(2, 2, 2), (3, 0, 3), (1, 4, 1)]:
        add(c, w=300, lo=-1, hi=0, dt="i4")
    # a communicator which is not COMM_WORLD
    add((2, 1), w=30, idle=1)
    add((1, 0, 2), w=60, idle=2, dt="f4")
    add((0, 2), w=60, use_default_comm=True)
    if tier == "thorough":
        for c in compositions(5, 2):
            add(c, w=900, dt="i8")
        for c in compositions(4, 3):
            add(c, w=900, dt="f8")
        add((1, 1, 1, 1), w=2000)
        add((1, 1, 1, 1, 0), w=2000, lo=0, hi=2)
        add((1, 1, 1, 1, 1), w=1500, lo=0, hi=1)
        for c in [(3, 3), (2, 4), (4, 2), (1, 5)]:
            add(c, w=1000, lo=0, hi=2)
        for c in [(2, 2, 2), (1, 3, 2), (3, 1, 2), (4, 1, 1)]:
            add(c, w=1000, lo=0, hi=2)
        for c in [(4, 4), (1, 7), (7, 1), (3, 5)]:
            add(c, w=1000, lo=0, hi=1)
        for c in [(2, 3, 3), (5, 1, 2), (2, 2, 2, 1)]:
            add(c, w=1000, lo=0, hi=1)
    return L
