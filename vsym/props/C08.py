"""gather_array / allgather_array: rank-ordered concatenation."""
from .common import *

BOUNDS = ("1-4 ranks, every distribution of up to 4 slices, arrays of 1-3 dimensions, every axis (negative "
          "included), every root; C/Fortran/strided inputs")
ASSUMPTIONS = []


class Gather(H):
    dt = "i8"
    axis = 0
    shape = ()      # full shape with the gathered axis removed
    root = 0        # None: allgather
    layout = "C"
    default_axis = False

    def full(self, n):
        ax = self.axis if self.axis >= 0 else self.axis + len(self.shape) + 1
        s = list(self.shape)
        s.insert(ax, n)
        return tuple(s), ax

    def inputs(self, v):
        nv = int(np.prod(self.shape, dtype=int))
        return dict(a=[ivals(v, "a%d" % r, n * nv, self.dt) for r, n in enumerate(self.sizes)])

    def rank(self, env, comm, r, inp):
        ga = env.load("virgo.mpi.gather_array")
        shape, ax = self.full(self.sizes[r])
        a = env.arr(inp["a"][r], self.dt, shape)
        if self.layout == "F":
            a = env.np.asfortranarray(a)
        elif self.layout == "S":
            b = env.np.zeros((2 * shape[0],) + shape[1:], dtype=self.dt)
            b[::2] = a
            a = b[::2]
        kw = {} if self.default_axis else dict(axis=self.axis)
        if self.root is None:
            out = ga.allgather_array(a, comm=comm, **kw)
        elif self.root == "default":
            out = ga.gather_array(a, comm=comm, **kw)
        else:
            out = ga.gather_array(a, root=self.root, comm=comm, **kw)
        return dict(out=out, a=a)

    def oracle(self, chk, inp, outs):
        shape, ax = self.full(sum(self.sizes))
        parts = []
        for r, n in enumerate(self.sizes):
            o = np.empty(len(inp["a"][r]), dtype=object)
            for i, x in enumerate(inp["a"][r]):
                o[i] = x
            parts.append(o.reshape(self.full(n)[0]))
        want = list(np.concatenate(parts, axis=ax).reshape(-1))
        for r, o in enumerate(outs):
            root = 0 if self.root == "default" else self.root
            if root is None or root == r:
                chk.arr(o["out"], want, "gathered array", dt=self.dt, shape=shape)
            else:
                chk.that(o["out"] is None, "other ranks get None")
            chk.eqlist(els(o["a"]), inp["a"][r], "input is unchanged")


def cases(tier):
    L = []

    def add(sizes, w=1, **k):
        nm = "gather-" + ".".join(map(str, sizes)) + "".join("-%s%s" % (a, str(b).replace(" ", ""))
                                                            for a, b in sorted(k.items()))
        L.append(("Gather", dict(name=nm, P=len(sizes), sizes=list(sizes), w=w, **k)))
    dts = ["i8", "f8", "u4", "i2", "f4", "u1", "u8"]
    k = 0
    szs = [(2,), (0,), (1, 2), (0, 2), (2, 0), (0, 0), (1, 0, 2), (0, 1, 1), (2, 1, 0), (1, 1, 0, 2)]
    for c in szs:
        for shape, axes in [((), [0, -1]), ((2,), [0, 1, -1, -2]), ((2, 3), [0, 1, 2, -1]), ((0,), [0, 1])]:
            for ax in axes:
                root = [None, 0, len(c) - 1, "default"][k % 4]
                add(c, shape=list(shape), axis=ax, root=root, dt=dts[k % 7], layout=["C", "F", "C", "S", "C"][k % 5])
                k += 1
    for c in [(1, 2), (0, 1, 1)]:
        for shape, ax in (((2, 1, 2), 0), ((1, 2, 2), 1), ((2, 1, 2), 3), ((2, 1, 2), -2), ((1, 2, 1, 2), 2)):
            add(c, shape=list(shape), axis=ax, root=[None, 1][ax % 2], dt="i4")
    add((1, 2), default_axis=True, root=None)
    add((1, 2), default_axis=True, root=1)
    add((2, 1, 1), default_axis=True, root=1, shape=[2])
    # a communicator which is not COMM_WORLD
    for ax in (0, 1):
        add((1, 2), shape=[2], axis=ax, root=None, idle=1)
        add((0, 1, 1), shape=[2], axis=ax, root=2, idle=1)
        add((1, 1), shape=[2], axis=ax, root="default", idle=2)
    if tier == "thorough":
        for c in list(compositions(4, 3)) + list(compositions(3, 4)):
            for ax in (0, 1, 2):
                for root in (None, 1):
                    add(c, shape=[3, 2], axis=ax, root=root, dt="f4")
    return L
