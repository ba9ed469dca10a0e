"""MultiFile.read: file order, missing data, file numbers, attributes."""
from .common import *

BOUNDS = ("1-4 ranks, 1-5 files, 0-2 rows per file and dataset (up to 11 per rank in dedicated cases), every pattern "
          "of missing datasets and groups listed; %- and {}-style name patterns, explicit file lists and index "
          "lists; file count from an attribute or a dataset; native and foreign byte order; element counts of 1D and "
          "2D datasets; element types which differ between files; the world communicator or some of its ranks")
ASSUMPTIONS = ["a dataset has the same type (except where differing types must be refused) and trailing shape in all "
               "files that contain it"]


class Files(H):
    """Common: a set of input files."""
    needs_files = True
    nf = 2
    idx = None              # explicit indexes
    style = "%"             # name pattern style, or "list"
    count = "attr"          # where the number of files is found: attr, dataset
    dt = "i4"
    tail = ()
    rmax = 2
    rmin = 0
    group = None
    miss = False            # datasets may be missing
    missgroup = False
    names = ("A", "B")
    attrs = False
    fixed = None            # rows per file fixed
    subdir = ""

    def rowlen(self):
        return int(np.prod(self.tail, dtype=int))

    def indexes(self):
        return list(range(self.nf)) if self.idx is None else list(self.idx)

    def fname(self, i):
        return "in.%d.hdf5" % i

    def pattern(self, env, base="in"):
        if self.style == "%":
            return env.path(base + ".%(file_nr)d.hdf5")
        if self.style == "{}":
            return env.path(base + ".{file_nr}.hdf5")
        return [env.path(base + ".%d.hdf5" % i) for i in self.indexes()]

    def shape(self, name):
        return tuple(self.tail) if name != "B" else ()

    def dtype(self, name):
        return np.dtype(self.dt) if name != "B" else np.dtype(">i2")

    def inputs(self, v):
        files = []
        for i in self.indexes():
            f = dict(i=i, group=True, data={})
            if self.missgroup:
                f["group"] = v.choice("g%d" % i, 2) == 0
            for name in self.names:
                n = self.fixed[i] if self.fixed else self.rmin + v.choice("n%s%d" % (name, i), self.rmax - self.rmin + 1 +
                                                                   (1 if self.miss else 0))
                if n > self.rmax and not self.fixed or not f["group"]:
                    f["data"][name] = None
                    continue
                nv = n * int(np.prod(self.shape(name), dtype=int))
                f["data"][name] = (n, ivals(v, "%s%d" % (name, i), nv, self.dtype(name).newbyteorder("=")))
            files.append(f)
        return dict(files=files)

    def setup_files(self, env, inp):
        h5py = env.mod("h5py")
        for f in inp["files"]:
            with h5py.File(env.path(self.fname(f["i"])), "w") as h:
                hd = h.create_group("Header")
                hd.attrs["NumFiles"] = env.np.int32(self.nf)
                h["nfiles"] = env.np.asarray(self.nf)
                if f["group"]:
                    g = h.create_group(self.group) if self.group else h
                    for name in self.names:
                        d = f["data"][name]
                        if d is not None:
                            g[name] = env.arr(d[1], self.dtype(name), (d[0],) + self.shape(name))
                            if self.attrs:
                                g[name].attrs["unit"] = env.np.float64(2.5)
                                g[name].attrs["code"] = env.np.int32(len(name) + 41)

    def multifile(self, env, comm, base="in"):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        kw = {}
        if self.style != "list":
            if self.idx is not None:
                kw["file_idx"] = env.np.asarray(self.idx)
            elif self.count == "attr":
                kw["file_nr_attr"] = ("Header", "NumFiles")
            else:
                kw["file_nr_dataset"] = "nfiles"
        return p5.MultiFile(self.pattern(env), comm=comm, **kw)

    def want(self, inp, name):
        """Expected rows (and file number of each row), or None if nothing is there at all."""
        have = [f for f in inp["files"] if f["data"][name] is not None]
        if not have:
            return None
        vals, nr = [], []
        for k, f in enumerate(inp["files"]):
            if f["data"][name] is not None:
                n, x = f["data"][name]
                vals += x
                nr += [f["i"] if self.style != "list" else k] * n
        return vals, nr


class Read(Files):
    ret = "dict"            # dict, unpack, single
    filenr = False

    def rank(self, env, comm, r, inp):
        mf = self.multifile(env, comm)
        kw = {}
        if self.group:
            kw["group"] = self.group
        if self.attrs:
            kw["read_attributes"] = True
        names = list(self.names)
        if self.filenr:
            kw["return_file_nr"] = tuple(names)
        if self.ret == "single":
            out = mf.read(names[0], **kw)
        elif self.ret == "unpack":
            out = mf.read(tuple(names), unpack=True, **kw)
        else:
            out = mf.read(tuple(names), **kw)
        nr = None
        if self.filenr:
            out, nr = out
        if self.ret == "single":
            out, nr = {names[0]: out}, {names[0]: nr}
        elif self.ret == "unpack":
            if not isinstance(out, list) or len(out) != len(names) or (self.filenr and not isinstance(nr, list)):
                return "unpack does not give lists"
            out = dict(zip(names, out))
            nr = dict(zip(names, nr)) if self.filenr else None
        if not isinstance(out, dict):
            return "result is not a dict"
        at = {}
        if self.attrs:
            for k, a in out.items():
                at[k] = None if a is None else ({n: x for n, x in a.attrs.items()}
                                                if getattr(a, "attrs", None) is not None else "none")
        return dict(out=dict(out), nr=nr, attrs=at)

    def oracle(self, chk, inp, outs):
        for o in outs:
            if isinstance(o, str):
                chk.fail(o)
        for name in self.names[:1] if self.ret == "single" else self.names:
            w = self.want(inp, name)
            parts = []
            for r, o in enumerate(outs):
                a = o["out"].get(name, "absent")
                if w is None:
                    chk.that(a is None, "%s is in no file: None on rank %d" % (name, r))
                    if self.filenr:
                        chk.that(o["nr"].get(name) is None, "no file numbers without data")
                    continue
                if not is_array(a):
                    chk.fail("%s on rank %d is %r" % (name, r, a))
                chk.that(tuple(shp(a)[1:]) == self.shape(name), "trailing shape of %s on rank %d" % (name, r))
                chk.that(np.dtype(a.dtype) == self.dtype(name).newbyteorder("="),
                         "%s has the file's type in native byte order" % name)
                chk.that(np.dtype(a.dtype).isnative, "%s is in native byte order" % name)
                parts.append(els(a))
                if self.filenr:
                    q = o["nr"].get(name)
                    if not is_array(q):
                        chk.fail("file numbers of %s on rank %d: %r" % (name, r, q))
                    chk.that(shp(q) == (shp(a)[0],), "one file number per row")
                if self.attrs:
                    t = o["attrs"][name]
                    chk.that(isinstance(t, dict) and set(t) == {"unit", "code"} and float(t["unit"]) == 2.5 and
                             int(t["code"]) == len(name) + 41, "attributes of %s on rank %d" % (name, r))
            if w is None:
                continue
            chk.eqlist(flat(parts), w[0], "%s: rows in file order" % name)
            if self.filenr:
                chk.eqlist(flat(els(o["nr"][name]) for o in outs), w[1], "file number of each row of %s" % name)


class Counts(Files):
    """get_elements_per_file."""

    def rank(self, env, comm, r, inp):
        mf = self.multifile(env, comm)
        kw = dict(group=self.group) if self.group else {}
        a = mf.get_elements_per_file("A", **kw)
        x = mf.read("A", **kw)
        return dict(n=[(int(k), int(a[k])) for k in a], local=None if x is None else shp(x)[0])

    def oracle(self, chk, inp, outs):
        tot = {}
        for r, o in enumerate(outs):
            if o["local"] is not None:
                chk.that(sum(n for k, n in o["n"]) == o["local"],
                         "the counts on rank %d describe the rows it reads" % r)
            for k, n in o["n"]:
                tot[k] = tot.get(k, 0) + n
        want = {}
        for k, f in enumerate(inp["files"]):
            i = f["i"] if self.style != "list" else k
            want[i] = f["data"]["A"][0] if f["data"]["A"] is not None else 0
        chk.that(tot == want, "elements per file %s, expected %s" % (tot, want))


class Mixed(Files):
    """A dataset whose type differs between files is refused on every rank."""
    names = ("A",)
    types = ("i4", "f4")

    def setup_files(self, env, inp):
        h5py = env.mod("h5py")
        for k, f in enumerate(inp["files"]):
            with h5py.File(env.path(self.fname(f["i"])), "w") as h:
                h.create_group("Header").attrs["NumFiles"] = env.np.int32(self.nf)
                d = f["data"]["A"]
                if d is not None:
                    h["A"] = env.arr(list(range(d[0])), self.types[k], (d[0],))

    def rank(self, env, comm, r, inp):
        mf = self.multifile(env, comm)
        try:
            mf.read("A")
        except RuntimeError:
            return "refused"
        return "read"

    def oracle(self, chk, inp, outs):
        t = set(np.dtype(self.types[k]).newbyteorder("=") for k, f in enumerate(inp["files"]) if f["data"]["A"] is not None)
        for r, o in enumerate(outs):
            chk.that(o == ("refused" if len(t) > 1 else "read"), "files with types %s are %s on rank %d" % (t, o, r))


class Assign(H):
    """assign_files: every file assigned, at least one per rank."""
    mpi = False

    def inputs(self, v):
        return dict(nr=v.choice("nr", self.rmax) + 1, nf=v.int("nf", 0, self.fmax))

    def rank(self, env, comm, r, inp):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        return p5.assign_files(inp["nf"], inp["nr"])

    def oracle(self, chk, inp, outs):
        o = outs[0]
        chk.that(shp(o) == (inp["nr"],), "one count per rank")
        t = 0
        for x in els(o):
            t = t + x
            chk.that(x >= 0, "counts are not negative")
            chk.that(sor(inp["nf"] < inp["nr"], x >= 1), "every rank gets a file if there are enough")
        chk.that(t == inp["nf"], "every file is assigned exactly once")


class Names(H):
    """substitute_file_nr: both pattern styles."""
    mpi = False

    def inputs(self, v):
        return dict(n=v.choice("n", 12), k=v.choice("k", 8))

    PAT = [("snap.%(file_nr)d.hdf5", "snap.%d.hdf5"), ("snap.{file_nr}.hdf5", "snap.%d.hdf5"),
           ("a_%(file_nr)04d", "a_%04d"), ("a_{file_nr:04d}", "a_%04d"), ("/d/x", "/d/x%.0s"),
           ("%(file_nr)d/%(file_nr)d", "%d/%d"), ("{file_nr}_{file_nr}", "%d_%d"), ("p{file_nr}.h5", "p%d.h5")]

    def rank(self, env, comm, r, inp):
        p5 = env.load("virgo.mpi.parallel_hdf5")
        return p5.substitute_file_nr(self.PAT[inp["k"]][0], inp["n"])

    def oracle(self, chk, inp, outs):
        t = self.PAT[inp["k"]][1]
        n = t.count("%")
        chk.that(outs[0] == t % ((inp["n"],) * n), "file name %r" % (outs[0],))


def cases(tier):
    L = []

    def add(cls, P, nf, w=1, **k):
        nm = "%s-P%d-F%d" % (cls.lower(), P, nf) + "".join("-%s%s" % (a, str(b).replace(" ", ""))
                                                         for a, b in sorted(k.items()))
        L.append((cls, dict(name=nm, P=P, nf=nf, w=w, **k)))
    # independent mode
    add("Read", 1, 1, dt="i8")
    add("Read", 1, 3, dt="f4", names=["A"], filenr=True, w=50)
    add("Read", 2, 2, dt="u4", w=200, miss=True, rmax=1)
    add("Read", 2, 3, dt="i4", names=["A"], filenr=True, miss=True, w=200)
    add("Read", 2, 3, dt="f8", tail=[2], names=["A"], style="{}", count="dataset", ret="single", w=100)
    add("Read", 3, 3, dt=">f8", tail=[3], names=["A"], style="list", ret="unpack", filenr=True, miss=True, w=300)
    add("Read", 3, 4, dt=">i4", names=["A"], miss=True, rmax=1, attrs=True, w=300)
    add("Read", 2, 2, dt="i2", group="grp", missgroup=True, miss=True, rmax=1, ret="unpack", w=300)
    add("Read", 2, 4, dt="i4", names=["A"], idx=[3, 1, 4, 7], filenr=True, group="grp/sub", w=300)
    add("Read", 3, 5, dt="u8", names=["A"], rmax=1, filenr=True, w=300)
    add("Read", 4, 5, dt="i4", names=["A"], rmax=1, filenr=True, ret="single", w=300)
    add("Read", 2, 2, dt="i4", attrs=True, miss=True, rmax=1, filenr=True, w=200)
    add("Read", 2, 5, dt="i4", names=["A"], rmax=1, style="{}", filenr=True, w=200)
    # collective mode
    add("Read", 2, 1, dt="i4", filenr=True, miss=True, w=100)
    add("Read", 2, 1, dt="i4", names=["A"], attrs=True, ret="single", miss=True)
    add("Read", 3, 2, dt=">u4", names=["A"], filenr=True, miss=True, rmax=3, w=100)
    add("Read", 3, 2, dt="f4", tail=[2], group="g", missgroup=True, miss=True, rmax=1, w=200)
    add("Read", 4, 3, dt="i8", names=["A"], filenr=True, miss=True, rmax=1, ret="unpack", w=200)
    add("Read", 4, 2, dt="i4", names=["A"], idx=[5, 2], filenr=True, attrs=True, miss=True, w=200)
    add("Read", 4, 1, dt="i4", names=["A"], rmax=5, style="list", filenr=True, w=100)
    add("Read", 3, 1, dt="i8", names=["A"], rmin=29, rmax=32, style="{}", filenr=True, w=100)
    add("Read", 4, 2, dt="?".replace("?", "i2"), names=["A"], rmin=19, rmax=22, filenr=True, w=200)
    add("Read", 3, 2, dt=">i4", names=["A"], fixed=[25, 3], filenr=True, attrs=True)
    add("Counts", 1, 3, names=["A"], miss=True)
    add("Counts", 2, 3, names=["A"], miss=True, group="g", missgroup=True, w=100)
    add("Counts", 3, 2, names=["A"], miss=True, rmax=4, w=100)
    add("Counts", 4, 3, names=["A"], miss=True, idx=[2, 9, 4], w=100)
    add("Counts", 3, 1, names=["A"], rmax=6, style="list", w=20)
    add("Counts", 2, 4, names=["A"], rmax=1, style="{}", w=50)
    add("Counts", 2, 2, names=["A"], tail=[2], miss=True, w=50)
    add("Counts", 3, 2, names=["A"], tail=[3], group="g", missgroup=True, miss=True, rmax=1, w=50)
    for P, nf in ((1, 2), (2, 2), (3, 2), (2, 1)):
        add("Read", P, nf, dt="i4", names=["A"], tail=[2, 1, 2], miss=True, rmax=1, w=50)
        add("Read", P, nf, dt="f4", names=["A"], tail=[1, 2], miss=True, rmax=1, ret="unpack", w=50)
    for P, types in ((1, ["i4", "f4"]), (1, ["i4", "f4", "i4"]), (2, ["i4", "f4"]), (3, ["u4", "i4", "u4"]),
                     (2, ["i8", "i8", "f8", "i8"]), (2, ["i8", "f8"]), (4, ["f4", "i4", "f4"]), (3, ["f4", "i4"]),
                     (4, ["i4", "u4"])):
        add("Mixed", P, len(types), types=types, miss=True, rmax=1, w=20)
    L.append(("Assign", dict(name="assign", rmax=7, fmax=60, w=300)))
    L.append(("Names", dict(name="names", w=20)))
    # a communicator which is not COMM_WORLD
    add("Read", 2, 2, dt="i4", idle=1, miss=True, rmax=1, filenr=True, attrs=True, w=100)
    add("Read", 2, 1, dt="i4", idle=2, names=["A"], miss=True, filenr=True, w=50)
    add("Read", 2, 3, dt="f8", idle=1, style="{}", names=["A"], count="dataset", rmax=1, w=50)
    add("Counts", 2, 3, idle=1, names=["A"], miss=True, rmax=1, w=50)
    add("Counts", 3, 2, idle=1, names=["A"], miss=True, rmax=2, w=50)
    if tier == "thorough":
        add("Read", 3, 4, dt="i4", miss=True, rmax=1, filenr=True, w=2000)
        add("Read", 4, 5, dt="f4", names=["A"], miss=True, rmax=1, filenr=True, attrs=True, w=2000)
        add("Read", 5, 3, dt=">i8", names=["A"], miss=True, rmax=2, filenr=True, w=2000)
        add("Read", 5, 5, dt=">i8", names=["A"], rmax=2, filenr=True, w=2000)
        add("Read", 4, 3, dt="i2", names=["A"], rmin=9, rmax=22, filenr=True, w=2000)
        L.append(("Assign", dict(name="assign-big", rmax=16, fmax=400, w=900)))
    return L
