"""collective_read / collective_write: complete, ordered, any buffer size."""
from .common import *

BOUNDS = ("1-4 ranks; datasets of 0 to 10*ranks+3 rows (both sides of the small-dataset switch); trailing shapes of "
          "0-2 dimensions including zero; integer, float, boolean, string and compound types; symbolic buffer sizes "
          "from 1 byte up to more than one rank's data; writes with every distribution of up to 5 rows and symbolic "
          "buffer size; compressed, shuffled and chunked output (with HDF5 1.12 or later); ranks disagreeing on the "
          "element type or shape; the world communicator or some of its ranks, in reverse order")
ASSUMPTIONS = ["the HDF5 library stores what it is given; HDF5 1.10 (no compression) as installed, and 1.12+ "
               "property list handling on the stand-in only"]
STRUCT = [("a", "<i4"), ("b", "<f8")]


def row_dtype(dt):
    return np.dtype(STRUCT) if dt == "struct" else np.dtype(dt)


def mkvals(v, name, n, dt):
    """n element values of type dt (symbolic where the type allows)."""
    if dt == "struct":
        return [(i + 1, float(i) / 2) for i in range(n)]
    d = np.dtype(dt)
    if d.kind == "S":
        return [("r%03d" % i).encode() for i in range(n)]
    if d.kind == "b":
        return [v.bool("%s[%d]" % (name, i)) for i in range(n)]
    return ivals(v, name, n, dt)


def mkarr(env, vals, dt, shape):
    if dt == "struct":
        a = env.np.zeros(shape, dtype=np.dtype(STRUCT))
        b = env.np.array([x[0] for x in vals], dtype="i4").reshape(shape)
        c = env.np.array([x[1] for x in vals], dtype="f8").reshape(shape)
        a["a"][...] = b
        a["b"][...] = c
        return a
    if np.dtype(dt).kind == "b":
        a = env.np.zeros((len(vals),), dtype=bool)
        for i, x in enumerate(vals):
            a[i] = x
        return a.reshape(shape)
    if len(vals) == 0:
        return env.np.zeros(shape, dtype=dt)
    return env.arr(vals, dt, shape)


class Read(H):
    needs_files = True
    dt = "i8"
    tail = ()
    nmin = 0
    nmax = 0
    bmax = 0        # symbolic buffer size 1..bmax, 0: default
    blist = ()

    def rowlen(self):
        return int(np.prod(self.tail, dtype=int))

    def inputs(self, v):
        n = self.nmin + v.choice("n", self.nmax - self.nmin + 1)
        b = None
        if self.blist:
            b = self.blist[v.choice("bi", len(self.blist))]
        elif self.bmax:
            b = v.int("buf", 1, self.bmax)
        return dict(n=n, buf=b, x=mkvals(v, "x", n * self.rowlen(), self.dt))

    def setup_files(self, env, inp):
        h5py = env.mod("h5py")
        with h5py.File(env.path("in.hdf5"), "w") as f:
            f["data"] = mkarr(env, inp["x"], self.dt, (inp["n"],) + tuple(self.tail))

    def rank(self, env, comm, r, inp):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        h5py = env.mod("h5py")
        with h5py.File(env.path("in.hdf5"), "r", driver="mpio", comm=comm) as f:
            if inp["buf"] is None:
                return p5.collective_read(f["data"], comm)
            return p5.collective_read(f["data"], comm, buffer_size=inp["buf"])

    def oracle(self, chk, inp, outs):
        rows = 0
        sz = []
        for r, o in enumerate(outs):
            if not is_array(o):
                chk.fail("rank %d got no array" % r)
            n = shp(o)[0]
            sz.append(n)
            w = inp["x"][rows * self.rowlen():(rows + n) * self.rowlen()]
            chk.arr(o, w, "rows on rank %d" % r, dt=row_dtype(self.dt), shape=(n,) + tuple(self.tail))
            rows += n
        chk.that(rows == inp["n"], "every row is read exactly once (%s of %d)" % (sz, inp["n"]))
        chk.that(max(sz) - min(sz) <= 1, "rows are divided equally")


class Write(H):
    needs_files = True
    dt = "i8"
    tail = ()
    total = 3
    bmax = 0
    existing = False
    layout = "C"
    group = None
    comp = None         # compression options (effective with HDF5 1.12 and later)

    rowlen = Read.rowlen

    def inputs(self, v):
        n = []
        left = self.total
        for r in range(self.P):
            k = v.choice("n%d" % r, left + 1)
            n.append(k)
            left -= k
        b = v.int("buf", 1, self.bmax) if self.bmax else None
        return dict(n=n, buf=b, x=[mkvals(v, "x%d" % r, k * self.rowlen(), self.dt) for r, k in enumerate(n)])

    def rank(self, env, comm, r, inp):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        h5py = env.mod("h5py")
        n = inp["n"][r]
        a = mkarr(env, inp["x"][r], self.dt, (n,) + tuple(self.tail))
        if self.layout == "F":
            a = env.np.asfortranarray(a)
        elif self.layout == "S":
            b = env.np.zeros((2 * n,) + tuple(self.tail), dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        kw = {} if inp["buf"] is None else dict(buffer_size=inp["buf"])
        kw.update(self.comp or {})
        with h5py.File(env.path("out.hdf5"), "w", driver="mpio", comm=comm) as f:
            g = f.create_group(self.group) if self.group else f
            if self.existing:
                g.create_dataset("data", shape=(sum(inp["n"]),) + tuple(self.tail), dtype=row_dtype(self.dt))
                kw["create_dataset"] = False
            d = p5.collective_write(g, "data", a, comm, **kw)
            same = d.name
        comm.Barrier()
        with h5py.File(env.path("out.hdf5"), "r") as f:
            g = f[self.group] if self.group else f
            d = g["data"]
            return dict(name=same, data=d[...], a=a, how=(d.chunks, d.compression, d.compression_opts, bool(d.shuffle)))

    def oracle(self, chk, inp, outs):
        w = flat(inp["x"])
        for r, o in enumerate(outs):
            chk.that(o["name"] == ("/%s/data" % self.group if self.group else "/data"), "dataset is returned")
            chk.arr(o["data"], w, "dataset content", dt=row_dtype(self.dt),
                    shape=(sum(inp["n"]),) + tuple(self.tail))
            chk.eqlist(els(o["a"]), inp["x"][r], "input is unchanged")
            if self.comp and self.h5v and sum(inp["n"]) > 0:
                n = sum(inp["n"])
                gz, sh = self.comp.get("gzip"), bool(self.comp.get("shuffle"))
                c = (min(n, self.comp.get("chunk", n)),) + tuple(self.tail) if gz is not None or sh else None
                chk.that(o["how"] == (c, None if gz is None else "gzip", gz, sh),
                         "chunks and filters of the dataset: %r" % (o["how"],))


class BadWrite(H):
    """Contributions which do not belong together are not written as if they did."""
    needs_files = True

    def inputs(self, v):
        return dict(x=[ivals(v, "x%d" % r, 4, dt) for r, (dt, tail) in enumerate(self.parts)])

    def rank(self, env, comm, r, inp):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        h5py = env.mod("h5py")
        dt, tail = self.parts[r]
        a = env.arr(inp["x"][r], dt, [4 // int(np.prod(tail, dtype=int))] + list(tail))
        with h5py.File(env.path("out.hdf5"), "w", driver="mpio", comm=comm) as f:
            p5.collective_write(f, "data", a, comm)
        return "written"

    def on_outcome(self, chk, inp, o):
        if o[0] == "ok":
            chk.fail("parts of different type or shape are written as one dataset")


class Dcpl(H):
    """Property lists for compressed output (HDF5 1.12 and later)."""
    virtual = True
    mpi = False
    needs_files = True

    def fs(self, v):
        from .. import fakeio
        return fakeio.FS(h5version=tuple(self.version))

    def inputs(self, v):
        nd = 1 + v.choice("nd", 2)
        return dict(shape=[v.choice("s%d" % i, 3) if i else v.int("s0", 0, 40) for i in range(nd)],
                    gz=[None, 0, 6][v.choice("gz", 3)], sh=bool(v.choice("sh", 2)),
                    ch=[None, 1, 7, 100][v.choice("ch", 4)], user=v.choice("user", 2))

    def rank(self, env, comm, r, inp):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        h5py = env.mod("h5py")
        d = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
        if inp["user"]:
            d.set_layout(h5py.h5d.CHUNKED)
            d.set_chunk((1,) * len(inp["shape"]))
        before = (d.layout, dict(d.o))
        out = p5.compress_dcpl(d, tuple(inp["shape"]), inp["gz"], inp["sh"], inp["ch"])
        return dict(same=(d.layout, dict(d.o)) == before,
                    out=None if out is None else (out.layout, dict(out.o)), isd=out is d, before=before)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        chk.that(o["same"] and not o["isd"], "the input property list is not modified")
        shape = inp["shape"]
        zero = sor(*[scalar_eq(s, 0) for s in shape])
        if tuple(self.version) < (1, 12, 0):
            chk.that(o["out"] == o["before"], "no filters before HDF5 1.12")
            return
        if o["out"] is None or o["out"] == o["before"]:
            chk.that(sor(zero, inp["gz"] is None and not inp["sh"]), "filters are only omitted for empty datasets")
            return
        lay, opt = o["out"]
        chk.that(snot(zero), "no filters for empty datasets")
        chk.that(lay == "chunked", "filters need chunks")
        chk.that(opt.get("gzip") == inp["gz"] and bool(opt.get("shuffle")) == inp["sh"], "requested filters are set")
        c = opt["chunks"]
        chk.that(len(c) == len(shape), "chunk rank")
        for a, b in zip(c, shape):
            chk.that(sand(a >= 1, a <= b), "chunks fit into the dataset")
        if not inp["user"]:
            m = 8 * 1024 * 1024 if inp["ch"] is None else inp["ch"]
            chk.that(sor(scalar_eq(c[0], m), sand(shape[0] <= m, scalar_eq(c[0], shape[0]))), "first chunk dimension")
            chk.eqlist(list(c[1:]), list(shape[1:]), "other chunk dimensions")
        else:
            chk.eqlist(list(c), [1] * len(shape), "the caller's chunk shape is kept")


class Size(H):
    """No single transfer exceeds the buffer size (unless one row does)."""
    needs_files = True
    virtual = True
    tail = ()
    total = 0

    def fs(self, v):
        from .. import fakeio
        return fakeio.FS()

    def inputs(self, v):
        return dict(buf=v.int("buf", 1, 8 * 14))

    def setup_files(self, env, inp):
        h5py = env.mod("h5py")
        with h5py.File(env.path("in.hdf5"), "w") as f:
            f["data"] = env.np.zeros((self.total,) + tuple(self.tail), dtype="i8")

    def rank(self, env, comm, r, inp):
        from .. import fakeh5
        p5 = env.load("virgo.mpi.parallel_hdf5")
        h5py = env.mod("h5py")
        with h5py.File(env.path("in.hdf5"), "r", driver="mpio", comm=comm) as f:
            d = f["data"]
            if r == 0:
                del fakeh5.TRANSFERS[:]
            comm.Barrier()
            x = p5.collective_read(d, comm, buffer_size=inp["buf"])
        comm.Barrier()
        with h5py.File(env.path("out.hdf5"), "w", driver="mpio", comm=comm) as f:
            p5.collective_write(f, "data", x, comm, buffer_size=inp["buf"])
        return list(fakeh5.TRANSFERS)

    def oracle(self, chk, inp, outs):
        row = 8 * int(np.prod(self.tail, dtype=int))
        for op, nb in outs[0]:
            chk.that(sor(inp["buf"] >= nb, nb <= row), "a transfer of %d bytes exceeds the buffer size" % nb)


def cases(tier):
    L = []

    def addr(P, nmin, nmax, w=1, **k):
        nm = "read-P%d-%d-%d" % (P, nmin, nmax) + "".join("-%s%s" % (a, str(b).replace(" ", ""))
                                                        for a, b in sorted(k.items()))
        L.append(("Read", dict(name=nm, P=P, nmin=nmin, nmax=nmax, w=w, **k)))

    def addw(P, total, w=1, **k):
        nm = "write-P%d-%d" % (P, total) + "".join("-%s%s" % (a, str(b).replace(" ", ""))
                                                   for a, b in sorted(k.items()))
        L.append(("Write", dict(name=nm, P=P, total=total, w=w, **k)))
    # small datasets
    addr(1, 0, 4, dt="i4")
    addr(2, 0, 7, dt="f8", tail=[3])
    addr(3, 0, 8, dt="S4")
    addr(3, 0, 5, dt="struct", tail=[2])
    addr(4, 0, 6, dt="u2", tail=[0])
    # around the switch, default buffer
    addr(1, 9, 12, dt="i8", w=20)
    addr(2, 18, 23, dt="f4", w=50)
    addr(3, 29, 33, dt="i2", tail=[2], w=80)
    addr(4, 39, 43, dt="?", w=50)
    addr(2, 19, 22, dt="struct", w=50)
    addr(3, 30, 32, dt="S4", tail=[2, 1], w=50)
    addr(2, 19, 21, dt="i8", tail=[0], w=20)
    addr(2, 19, 21, dt="S4", tail=[2, 0], w=20)
    addr(2, 20, 21, dt="i4", tail=[2, 1, 2], bmax=16 * 12, w=100)
    # symbolic buffer sizes
    addr(1, 10, 11, dt="i8", bmax=100, w=200)
    addr(2, 20, 23, dt="i8", bmax=100, w=400)
    addr(2, 20, 21, dt="f4", tail=[3], bmax=140, w=400)
    addr(2, 20, 21, dt="S4", bmax=48, w=400)
    addr(2, 21, 21, dt="struct", bmax=12 * 12, w=400)
    addr(2, 21, 21, dt="?", bmax=14, w=400)
    addr(3, 31, 32, dt="u1", bmax=12, w=400)
    addr(3, 30, 31, dt="i4", tail=[2, 2], bmax=16 * 12, w=400)
    addr(3, 31, 31, dt="S4", tail=[2], bmax=8 * 12, w=400)
    addr(4, 41, 42, dt="f8", bmax=90, w=400)
    addr(2, 21, 21, dt="i8", tail=[0], bmax=10, w=30)
    addr(2, 21, 21, dt="S4", tail=[0], bmax=10, w=30)
    # writes
    for P, tot in ((1, 3), (2, 4), (3, 3), (4, 2)):
        addw(P, tot, dt="i8", w=20)
        addw(P, tot, dt="f4", tail=[2], bmax=8 * (tot + 1), w=300)
    addw(2, 3, dt="S4", bmax=16, w=100)
    addw(2, 3, dt="struct", bmax=40, tail=[1], w=100)
    addw(2, 3, dt="i4", tail=[2, 2], layout="F", bmax=50, w=200)
    addw(2, 3, dt="u8", layout="S", bmax=26, w=200)
    addw(3, 2, dt="i2", tail=[3], layout="S", existing=True, bmax=20, w=200)
    addw(2, 3, dt="f8", existing=True, group="grp", w=50)
    addw(2, 3, dt="u2", tail=[1, 2, 2], bmax=20, w=50)
    addw(2, 2, dt="i8", tail=[0], w=20)
    addw(2, 2, dt="i8", tail=[2, 0], bmax=9, w=20)
    addw(2, 2, dt="?", tail=[2], group="g", bmax=6, w=50)
    for i, ver in enumerate(((1, 10, 10), (1, 12, 0), (1, 14, 3))):
        L.append(("Dcpl", dict(name="dcpl-%d.%d.%d" % ver, version=list(ver), w=100)))
    for P, tot, tail in ((1, 12, []), (2, 22, []), (2, 21, [2]), (3, 30, [])):
        L.append(("Size", dict(name="size-P%d-%d-%s" % (P, tot, tail), P=P, total=tot, tail=tail, w=200)))
    for P, tot, tail in ((1, 12, [2, 2]), (2, 20, [2, 2])):
        L.append(("Size", dict(name="size-P%d-%d-%s" % (P, tot, tail), P=P, total=tot, tail=tail, w=200)))
    # compressed output
    addw(2, 3, dt="i4", tail=[2], comp=dict(gzip=4, shuffle=True, chunk=2), h5v=[1, 14, 0], w=50)
    addw(3, 2, dt="f8", comp=dict(gzip=0), h5v=[1, 12, 0], group="g", w=50)
    addw(2, 3, dt="i2", tail=[1, 3], comp=dict(shuffle=True, chunk=7), h5v=[1, 14, 0], bmax=20, w=50)
    addw(2, 3, dt="i2", comp=dict(chunk=1), h5v=[1, 14, 0], w=20)
    for i, parts in enumerate(([("i4", []), ("f4", [])], [("f8", []), ("f8", []), ("i8", [])],
                               [("i4", [2]), ("i4", [4])], [("i4", []), ("i4", [1])], [("i8", []), ("i4", [])])):
        L.append(("BadWrite", dict(name="bad-%d" % i, P=len(parts), parts=parts, novalidate=True, w=20)))
    # a communicator which is not COMM_WORLD
    addr(2, 3, 4, dt="i4", idle=1)
    addr(2, 20, 21, dt="i8", idle=1, w=50)
    addr(3, 31, 31, dt="f4", idle=2, bmax=12 * 4, w=100)
    addw(2, 3, dt="i8", idle=1, bmax=20, w=50)
    addw(3, 2, dt="f4", idle=2, tail=[2], w=50)
    if tier == "thorough":
        addr(4, 40, 44, dt="i8", bmax=130, w=900)
        addr(3, 30, 35, dt="S4", bmax=60, w=900)
        addr(2, 40, 41, dt="struct", bmax=12 * 22, w=900)
        addr(5, 50, 55, dt="f8", bmax=100, w=900)
        addw(3, 5, dt="i8", bmax=60, w=900)
        addw(4, 4, dt="f4", tail=[2], bmax=40, w=900)
        addw(3, 4, dt="struct", layout="S", bmax=70, w=900)
    return L
