"""MultiFile.write: output files have the layout of the input files."""
from .common import *
from .C13 import Files

BOUNDS = ("1-4 ranks, 1-5 files, 0-2 rows per file (up to 22 in dedicated cases), files without the dataset, new "
          "files and additions to existing files, %- and {}-patterns and explicit lists, index lists, sub-groups, "
          "attributes, 1D and 2D data; chunked and compressed output with several versions of HDF5; the world "
          "communicator or some of its ranks")
ASSUMPTIONS = ["the arrays written are partitioned like the arrays read (as documented)"]


class Write(Files):
    names = ("A",)
    mode = "w"
    two = False
    sub = None
    wattrs = False
    opts = None
    chunks = None       # chunk shape of a property list passed by the caller
    scale = False

    def rank(self, env, comm, r, inp):
        h5py = env.mod("h5py")
        mf = self.multifile(env, comm)
        kw = dict(group=self.group) if self.group else {}
        x = mf.read("A", **kw)
        n = mf.get_elements_per_file("A", **kw)
        wrote = x is not None
        base = "in" if self.mode in ("r+", "a") else "out"
        if wrote:
            kw = dict(group=self.sub) if self.sub else {}
            data = {"X": x}
            at = {}
            if self.two:
                data["Y"] = x.astype(x.dtype.newbyteorder("="))[:, 0].copy() if self.tail else x.copy()
            if self.wattrs:
                at = {"X": {"scale": 3, "name": env.np.float64(0.5)}}
                kw["attrs"] = at
            kw.update(self.opts or {})
            if self.chunks:
                kw["dcpl"] = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
                kw["dcpl"].set_chunk(tuple(self.chunks))
            mf.write(data, n, self.pattern(env, base), self.mode, **kw)
        comm.Barrier()
        out = []
        if r == 0 and wrote:
            for i in self.indexes():
                with h5py.File(env.path("%s.%d.hdf5" % (base, i)), "r") as f:
                    g = f[self.sub] if self.sub else f
                    d = dict(x=g["X"][...], y=g["Y"][...] if self.two else None, keys=sorted(f.keys()),
                             how=(g["X"].chunks, g["X"].compression, g["X"].compression_opts, bool(g["X"].shuffle)),
                             at=[(k, float(g["X"].attrs[k])) for k in sorted(g["X"].attrs)])
                    if base == "in":
                        gi = f[self.group] if self.group else f
                        d["a"] = gi["A"][...] if "A" in gi else None
                    out.append(d)
        comm.Barrier()
        return dict(wrote=wrote, out=out)

    def oracle(self, chk, inp, outs):
        have = any(f["data"]["A"] is not None for f in inp["files"])
        for o in outs:
            chk.that(o["wrote"] == have, "data is found if any file has it")
        if not have:
            return
        for f, o in zip(inp["files"], outs[0]["out"]):
            n, x = f["data"]["A"] if f["data"]["A"] is not None else (0, [])
            chk.arr(o["x"], x, "file %d" % f["i"], dt=np.dtype(self.dt).newbyteorder("="),
                    shape=(n,) + tuple(self.tail))
            if self.two:
                w = int(np.prod(self.tail, dtype=int))
                chk.arr(o["y"], x[::w] if self.tail else x, "second dataset in file %d" % f["i"], shape=(n,))
            if n > 0 and (self.chunks or self.h5v):
                k = self.opts or {}
                gz, sh = (k.get("gzip"), bool(k.get("shuffle"))) if self.h5v else (None, False)
                c = tuple(self.chunks) if self.chunks else (min(n, k.get("chunk", n)),) + tuple(self.tail)
                chk.that(o["how"] == (c, None if gz is None else "gzip", gz, sh),
                         "chunks and filters in file %d: %r" % (f["i"], o["how"]))
            want = [("name", 0.5), ("scale", 3.0)] if self.wattrs else []
            chk.that(o["at"] == want, "attributes in file %d: %s" % (f["i"], o["at"]))
            if self.mode in ("r+", "a"):
                if f["data"]["A"] is None:
                    chk.that(o["a"] is None, "nothing else is added")
                else:
                    chk.eqlist(els(o["a"]), x, "existing data of file %d is kept" % f["i"])


class Bad(Files):
    """A list of the wrong length is refused."""
    names = ("A",)

    def rank(self, env, comm, r, inp):
        mf = self.multifile(env, comm)
        x = mf.read("A")
        n = mf.get_elements_per_file("A")
        try:
            mf.write({"X": x}, n, [env.path("o%d.hdf5" % i) for i in range(self.nf + self.d)], "w")
        except ValueError:
            return "refused"
        return "written"

    def oracle(self, chk, inp, outs):
        for o in outs:
            chk.that(o == "refused", "a wrong number of output names is refused")


def cases(tier):
    L = []

    def add(cls, P, nf, w=1, **k):
        nm = "%s-P%d-F%d" % (cls.lower(), P, nf) + "".join("-%s%s" % (a, str(b).replace(" ", ""))
                                                         for a, b in sorted(k.items()))
        L.append((cls, dict(name=nm, P=P, nf=nf, w=w, **k)))
    # one or more files per rank
    add("Write", 1, 3, dt="i4", w=50)
    add("Write", 2, 3, dt="f8", tail=[2], two=True, w=100)
    add("Write", 2, 3, dt=">i4", mode="r+", miss=True, rmax=1, w=100)
    add("Write", 2, 2, dt="u2", mode="a", miss=True, style="{}", wattrs=True, sub="g/h", w=100)
    add("Write", 3, 4, dt="i8", idx=[7, 2, 9, 0], rmax=1, wattrs=True, two=True, w=100)
    add("Write", 3, 5, dt="i4", rmax=1, style="{}", w=200)
    add("Write", 3, 3, dt="f4", style="list", mode="w", tail=[3], group="g", missgroup=True, miss=True, rmax=1, w=200)
    add("Write", 2, 4, dt="i4", idx=[3, 2, 1, 0], mode="r+", group="grp", sub="grp", rmax=1, w=100)
    add("Write", 2, 2, dt="i4", opts=dict(gzip=4, shuffle=True, chunk=2), mode="w", w=50)
    # several ranks per file
    add("Write", 2, 1, dt="i4", rmax=4, mode="r+", w=50)
    add("Write", 3, 2, dt="f8", tail=[2], two=True, miss=True, wattrs=True, w=100)
    add("Write", 4, 3, dt="i8", idx=[4, 8, 1], rmax=1, miss=True, sub="g", w=100)
    add("Write", 4, 2, dt=">i2", style="list", mode="a", miss=True, w=100)
    add("Write", 4, 1, dt="u4", style="{}", rmax=6, wattrs=True, two=True, w=100)
    add("Write", 3, 1, dt="i4", rmin=29, rmax=31, w=50)
    add("Write", 3, 2, dt="i4", fixed=[21, 11], mode="w", sub="grp", w=50)
    add("Write", 2, 1, dt="i4", opts=dict(gzip=4, shuffle=True, chunk=2), mode="w", w=50)
    for P, nf in ((1, 2), (2, 2), (3, 2), (2, 1)):
        add("Write", P, nf, dt="i4", tail=[2, 1, 2], miss=True, rmax=1, w=50)
    add("Bad", 1, 2, dt="i4", rmax=1, d=1)
    add("Bad", 2, 2, dt="i4", rmax=1, d=-1)
    add("Bad", 3, 2, dt="i4", rmax=1, d=-1)
    # compressed output and the caller's own property list
    for P, nf in ((1, 2), (2, 3), (3, 2), (2, 1)):
        add("Write", P, nf, dt="i4", opts=dict(gzip=4, shuffle=True, chunk=2), h5v=[1, 14, 0], rmax=3, w=50)
        add("Write", P, nf, dt="f4", tail=[2], opts=dict(shuffle=True), h5v=[1, 12, 0], miss=True, rmax=1, w=50)
        add("Write", P, nf, dt="f4", tail=[2], opts=dict(gzip=1), chunks=[1, 2], h5v=[1, 12, 0], rmin=1, rmax=2, w=50)
        add("Write", P, nf, dt="i4", chunks=[1], rmin=1, rmax=3, w=50)
    # a communicator which is not COMM_WORLD
    add("Write", 2, 3, dt="i4", idle=1, rmax=1, w=50)
    add("Write", 3, 2, dt="f8", idle=1, rmax=1, w=50)
    if tier == "thorough":
        add("Write", 3, 4, dt="i4", miss=True, two=True, w=2000)
        add("Write", 4, 5, dt="i4", miss=True, rmax=1, mode="r+", w=2000)
        add("Write", 5, 3, dt="f4", tail=[2], miss=True, rmax=3, wattrs=True, w=2000)
        add("Write", 5, 2, dt="i4", rmin=18, rmax=32, w=2000)
    return L
