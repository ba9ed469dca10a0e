"""Fortran HDF5 wrapper: parts of datasets are read and written exactly where asked."""
from .common import *
from .. import fwrap

BOUNDS = ("wrapper routines of every type (real, double, integer*4, integer*8, character) and every rank 0-7 for a write "
          "followed by a read of a part (two to eight elements, start 1-3 in each dimension); reads and writes of "
          "parts: datasets of rank 0-3 with any extents 1-4, arrays of every rank 0-3 with a list of shapes up to 6 "
          "elements, any start 0-5 and count 0-4 in each dimension; new, overwritten, existing fixed and existing "
          "extensible datasets, any initial size 0-6, any compression level 0-19, chunk sizes 1-3; positions, extents "
          "and values symbolic")
ASSUMPTIONS = ["the HDF5 library does what its documentation says (vsym/fakehdf.py stands in for it; sampled paths are "
               "run against the real library)",
               "the C helper routines consist of one library call each"]
TYPES = ["i4", "i8", "r4", "r8", "c5"]
VMAX = {"i4": 2 ** 31 - 1, "i8": 2 ** 63 - 1, "r4": 2 ** 23, "r8": 2 ** 50, "c5": 9999}


def total(d):
    t = 1
    for x in d or []:
        t *= x
    return t


class W(H):
    """Base: a program of wrapper calls."""
    mpi = False
    t = "i4"

    def vals(self, v, name, n, t=None):
        t = t or self.t
        lo = 1 if t[0] == "c" else -VMAX[t]
        return [v.int("%s[%d]" % (name, i), lo, VMAX[t]) for i in range(n)]

    def rank(self, env, comm, r, inp):
        return fwrap.run(env, self.pre(inp), self.program(inp), self.dump, self.verbosity)

    dump = ("out.hdf5",)
    verbosity = 0

    def pre(self, inp):
        return []

    def oracle(self, chk, inp, outs):
        st, res, con = outs[0]
        if st == "compile":
            chk.fail("no wrapper routine for this call: %s" % str(res[-1])[:300])
        if st == "crash":
            chk.fail("memory error: %s" % str(res[-1])[:300])
        self.judge(chk, inp, st, res, con)


def flatpos(shape):
    """Coordinates of the elements of an array, first index fastest."""
    out = [[]]
    for n in reversed(shape):
        out = [[i] + x for x in out for i in range(n)]
    return out


def match(shape, count):
    """How an array of this shape takes data of these (concrete) counts: the data dimension of each array dimension
    (None: not used), or None if it cannot."""
    if len(shape) == len(count) and all(a >= c for a, c in zip(shape, count)):
        return list(range(len(shape)))
    a = [i for i, n in enumerate(shape) if n > 1]
    c = [i for i, n in enumerate(count) if n > 1]
    if len(a) != len(c) or any(shape[i] < count[j] for i, j in zip(a, c)):
        return None
    m = [None] * len(shape)
    for i, j in zip(a, c):
        m[i] = j
    return m


def selected(shape, count, m):
    """flat array position -> data coordinates, of the elements of the array which hold data."""
    out = {}
    for p, c in enumerate(flatpos(shape)):
        k = [0] * len(count)
        ok = True
        for i, j in enumerate(m):
            if j is None:
                ok = ok and c[i] == 0
            else:
                ok = ok and c[i] < count[j]
                k[j] = c[i]
        if ok:
            out[p] = k
    return out


class Read(W):
    """Part (or all) of a dataset written by other means."""
    part = True
    frank = 1
    ft = None           # type in the file
    shapes = ((2,),)
    extra = 0           # elements of start and count beyond the rank
    extrac = None       # the same for count, if different
    without = None      # "start" or "count": not passed
    dmax = 4

    def inputs(self, v):
        i = {}
        i["shape"] = self.shapes[v.choice("shape", len(self.shapes))]
        i["dims"] = [v.int("dims[%d]" % d, 1, self.dmax) for d in range(self.frank)]
        if self.part:
            n = max(0, self.frank + self.extra)
            i["start"] = [v.int("start[%d]" % d, 0, 5) for d in range(n)]
            i["count"] = [v.int("count[%d]" % d, 0, 4) for d in range(n if self.extrac is None else self.frank + self.extrac)]
        return i

    def pre(self, inp):
        return [("in.hdf5", [("dset", "g/x", self.ft or self.t, inp["dims"])])]

    def program(self, inp):
        o = dict(start=inp["start"], count=inp["count"]) if self.part else {}
        o.pop(self.without, None)
        return [("open", "h", "in.hdf5", True), ("read", "h", "g/x", self.t, inp["shape"], o), ("close", "h")]

    def judge(self, chk, inp, st, res, con):
        n = self.frank
        bad = (self.ft or self.t) != self.t or (self.part and (self.extra < 0 or (self.extrac or 0) < 0)) or \
            self.without is not None
        dims = inp["dims"]
        if not bad:
            if self.part:
                start, count = inp["start"][:n], [int(x) for x in inp["count"][:n]]
                if all(count):
                    bad = any(bool(sor(s < 1, s + c - 1 > d)) for s, c, d in zip(start, count, dims))
            else:
                start, count = [1] * n, [int(x) for x in dims]
        shape = list(inp["shape"] or [])
        m = None if bad else match(shape, count)
        if m is not None and not all(count):
            # no data: nothing is read (that the wrapper stops is not excluded)
            if len(res) > 1:
                chk.eqlist(res[1], [fwrap.SENT] * total(shape), "array after an empty read")
            return
        if m is None:
            if st != "abort" or len(res) != 1:
                chk.fail("the program went on after a read which is not possible (%s)" % st)
            return
        if st != "done":
            chk.fail("a correct read ended with %s" % st)
        sel = selected(shape, count, m)
        want = [fwrap.SENT] * total(shape)
        for p, k in sel.items():
            want[p] = fwrap.injective([s - 1 + x for s, x in zip(start, k)])
        chk.eqlist(res[1], want, "array read")


class Write(W):
    """One write: new dataset, or one that exists."""
    state = "none"      # none, fixed, unlimited
    frank = 1
    shapes = ((2,),)
    part = True
    extra = 0
    extrac = None
    without = None
    init = False
    over = None         # overwrite argument present?
    ext = None
    gz = False
    szip = None
    chunk = None
    path = "x"
    ft = None
    dmax = 3

    def inputs(self, v):
        i = {}
        i["shape"] = self.shapes[v.choice("shape", len(self.shapes))]
        i["vals"] = self.vals(v, "v", total(i["shape"]))
        if self.state != "none":
            i["dims"] = [v.int("dims[%d]" % d, 1, self.dmax) for d in range(self.frank)]
        n = self.frank + self.extra
        if self.part:
            i["start"] = [v.int("start[%d]" % d, 0 if self.state != "none" or self.init else 1, self.smax) for d in range(n)]
            i["count"] = [v.int("count[%d]" % d, 1, 4) for d in range(n if self.extrac is None else self.frank + self.extrac)]
        if self.init:
            i["init"] = [v.int("init[%d]" % d, 1, 6) for d in range(self.frank)]
        if self.over:
            i["over"] = v.bool("overwrite")
        if self.ext:
            i["ext"] = v.bool("extensible")
        if self.gz:
            i["gz"] = v.int("gzip", 0, 19)
        if self.szip:
            i["szip"] = v.bool("szip")
        i["q"] = [v.int("q[%d]" % d, 0, 11) for d in range(max(self.frank, self.qrank))]
        return i

    qrank = 0
    smax = 4

    def pre(self, inp):
        o = [("group", "old")]
        if self.state != "none":
            o.append(("dset", self.path, self.ft or self.t, inp["dims"], dict(unlimited=self.state == "unlimited")))
        return [("out.hdf5", o)]

    def program(self, inp):
        o = {}
        if self.part:
            o.update(start=inp["start"], count=inp["count"])
            o.pop(self.without, None)
        for k, n in (("init", "initial_size"), ("over", "overwrite"), ("ext", "extensible"), ("gz", "gzip"), ("szip", "szip")):
            if k in inp:
                o[n] = inp[k]
        if self.chunk:
            o["chunk_size"] = self.chunk
        return [("open", "h", "out.hdf5", None), ("write", "h", self.path, self.t, inp["shape"], inp["vals"], o),
                ("close", "h")]

    def judge(self, chk, inp, st, res, con):
        shape = list(inp["shape"] or [])
        new = self.state == "none" or ("over" in inp and bool(inp["over"]))
        rank = len(shape) if new else self.frank
        bad = False
        loose = False
        ext = bool(inp["ext"]) if "ext" in inp else False
        gz = 0
        if "gz" in inp:
            g = inp["gz"]
            gz = int(g) if not self.szip else (int(g))
            if self.szip and gz > 0 and bool(inp["szip"]):
                bad = True
        start, count = [1] * rank, None
        if self.part and not bad:
            if len(inp["start"]) < rank or len(inp["count"]) < rank or self.without:
                bad = True
            else:
                start, count = inp["start"][:rank], [int(c) for c in inp["count"][:rank]]
        if not bad:
            if new:
                if self.init:
                    dims = inp["init"][:rank]
                    bad = len(dims) < rank
                    if count is None:
                        count = [int(d) for d in dims]
                        loose = True
                elif self.part:
                    dims = [s + c - 1 for s, c in zip(start, count)]
                else:
                    dims = shape
                    count = shape
            else:
                dims = inp["dims"]
                bad = not self.part or (self.ft or self.t) != self.t
                if not bad:
                    end = [s + c - 1 for s, c in zip(start, count)]
                    if any(bool(e > d) for e, d in zip(end, dims)):
                        if self.state == "fixed":
                            bad = True
                        dims = [d if bool(e <= d) else e for e, d in zip(end, dims)]
        if not bad:
            bad = any(bool(sor(s < 1, s + c - 1 > d)) for s, c, d in zip(start, count, dims))
        m = None if bad else match(shape, count)
        if m is None:
            if st != "abort" or len(res) != 1:
                chk.fail("the program went on after a write which is not possible (%s)" % st)
            return
        if not rank and gz % 10:
            return              # (scalars cannot be compressed)
        if st != "done":
            chk.fail("a correct write ended with %s" % st)
        c = con["out.hdf5"]
        p, want = "", {"/old"}
        for x in self.path.strip("/").split("/"):
            p += "/" + x
            want.add(p)
        chk.eq(sorted(k for k in c if k), sorted(want), "objects in the file")
        d = c[p]
        chk.eq(tuple(d.type), fwrap.tinfo(self.t), "type of the dataset")
        chk.eqlist(d.dims, list(dims), "extent of the dataset")
        if new:
            if rank:
                chk.eqlist(d.unlimited, [ext] * rank, "extensible dataset")
            if rank and gz % 10:
                chk.eq(d.gzip, gz % 10, "compression level")
                chk.eq(d.shuffle, gz > 9, "shuffle filter")
            elif rank:
                chk.that(d.gzip in (None, 0), "uncompressed dataset")
            if self.chunk and rank and (gz % 10 or ext):
                for a, b in zip(d.chunk, self.chunk):
                    chk.that(a <= b, "chunk size")
        q = inp["q"][:rank]
        inside = sand(*[x < n for x, n in zip(q, dims)]) if rank else True
        if not bool(inside):
            return
        want = 0
        if not new:
            want = fwrap.injective(q)
            if bool(sor(*[x >= n for x, n in zip(q, inp["dims"])])):
                want = 0
        for a, k in selected(shape, count, m).items():
            if rank == 0 or bool(sand(*[x == s - 1 + y for x, s, y in zip(q, start, k)])):
                want = inp["vals"][a]
        got = d.value(q)
        chk.eq(got, want, "element of the dataset")


class Trip(W):
    """A routine pair (type and rank): write a part of a new dataset, read it back."""
    shape = (2,)

    def inputs(self, v):
        i = {}
        i["vals"] = self.vals(v, "v", total(self.shape))
        if self.shape is not None:
            i["start"] = [v.int("start[%d]" % d, 1, 3 if d < 3 else 2) for d in range(len(self.shape))]
            i["q"] = [v.int("q[%d]" % d, 0, 5) for d in range(len(self.shape))]
        return i

    def program(self, inp):
        o = dict(start=inp["start"], count=list(self.shape)) if self.shape is not None else {}
        return [("create", "h", "out.hdf5"), ("write", "h", "a/x", self.t, self.shape, inp["vals"], o),
                ("read", "h", "a/x", self.t, self.shape, o), ("dims", "h", "a/x"), ("type", "h", "a/x"), ("close", "h")]

    def judge(self, chk, inp, st, res, con):
        if st != "done":
            chk.fail("ended with " + st)
        n = len(self.shape or [])
        chk.eqlist(res[2], inp["vals"], "array read back")
        dims = [s + c - 1 for s, c in zip(inp["start"], self.shape)] if n else []
        chk.eq(res[3][0], n, "rank")
        chk.eqlist(res[3][1], dims, "dimensions")
        c, b = fwrap.tinfo(self.t)
        chk.that(res[4][0] in {"int": ("INTEGER",), "float": ("REAL",), "str": ("CHARACTER", "STRING")}[c], "type name")
        chk.eq(res[4][1], b, "element size")
        d = con["out.hdf5"]["/a/x"]
        chk.eq(tuple(d.type), (c, b), "type in the file")
        chk.eqlist(d.dims, dims, "extent in the file")
        q = inp.get("q", [])
        if not bool(sand(*[x < y for x, y in zip(q, dims)]) if n else True):
            return
        want = 0
        for p, k in enumerate(flatpos(self.shape or [])):
            if not n or bool(sand(*[x == s - 1 + y for x, s, y in zip(q, inp["start"], k)])):
                want = inp["vals"][p]
        chk.eq(d.value(q), want, "element in the file")


SH = {0: (None,), 1: ((1,), (2,), (3,)), 2: ((1, 1), (2, 1), (1, 3), (2, 3)), 3: ((1, 1, 1), (2, 1, 3), (1, 2, 2), (1, 3, 1))}
RANKS = [None, (2,), (2, 3), (1, 2, 2), (2, 1, 1, 3), (1, 2, 1, 2, 1), (2, 1, 1, 1, 2, 1), (1, 2, 1, 1, 1, 2, 2)]
BUDGET = {"quick": 400, "thorough": 800}


def cases(tier):
    out = []
    for t in TYPES:
        for s in RANKS:
            out.append(("Trip", dict(name="trip %s rank %d" % (t, len(s or [])), t=t, shape=s, w=2 + len(s or []))))
    for fr in (0, 1, 2, 3):
        for ar in (0, 1, 2, 3):
            for part in (True, False):
                if fr == 0 and part:
                    continue
                c = dict(frank=fr, shapes=SH[ar], part=part, t=TYPES[(fr + ar) % 5] if fr < 3 else "i4", w=5 + 10 * fr)
                if fr == 3 and part:
                    c["dmax"] = 3
                    if tier == "quick" and ar < 2:
                        continue
                out.append(("Read", dict(c, name="read rank %d into %d%s" % (fr, ar, " part" if part else ""))))
    for t, ft in (("i4", "i8"), ("i8", "i4"), ("r4", "r8"), ("r8", "r4"), ("i4", "r4"), ("r4", "i4"), ("i4", "c5"),
                  ("c5", "i4"), ("c5", "c9"), ("c5", "c3"), ("i4", "x4")):
        if (t, ft) == ("c5", "c3"):
            continue
        out.append(("Read", dict(name="read %s as %s" % (ft, t), frank=1, shapes=((3,),), t=t, ft=ft, part=False)))
    for e in (-1, 1, 2):
        out.append(("Read", dict(name="read start and count of %d elements" % (2 + e), frank=2, shapes=((2, 2),), extra=e, w=20)))
    for fr in (1, 2):
        for a, b in ((-1, 0), (0, -1), (1, 0), (0, 1)):
            c = dict(frank=fr, shapes=((2,) * fr,), extra=a, extrac=b, w=10)
            out.append(("Read", dict(c, name="read rank %d start %d count %d elements" % (fr, fr + a, fr + b))))
            for state in ("none", "fixed", "unlimited"):
                out.append(("Write", dict(c, name="write %s rank %d start %d count %d elements" % (state, fr, fr + a, fr + b), state=state)))
        for wo in ("start", "count"):
            c = dict(frank=fr, shapes=((2,) * fr,), without=wo)
            out.append(("Read", dict(c, name="read rank %d without %s" % (fr, wo))))
            for state in ("none", "fixed"):
                out.append(("Write", dict(c, name="write %s rank %d without %s" % (state, fr, wo), state=state)))
    for state in ("none", "fixed", "unlimited"):
        for fr in (0, 1, 2, 3):
            for ar in (0, 1, 2, 3):
                if (state == "none" and ar != fr) or (fr == 0 and (state == "unlimited" or ar > 1)) or (fr == 3 and ar == 1):
                    continue
                c = dict(state=state, frank=fr, shapes=SH[ar], t=TYPES[(fr + 2 * ar) % 5], w=5 + 10 * fr,
                         path=["x", "/x", "g/x", "/g/h/x"][ar] if state == "none" else "g/x")
                if fr == 3:
                    c.update(dmax=2, smax=2, shapes=((1, 2, 2), (2, 1, 2)) if ar == 3 else SH[ar][1:3] or SH[ar])
                out.append(("Write", dict(c, name="write %s rank %d from %d part" % (state, fr, ar), part=fr > 0)))
                if fr in (1, 2):
                    out.append(("Write", dict(c, name="write %s rank %d from %d all" % (state, fr, ar), part=False)))
    for fr in (1, 2):
        s = ((2,), (3,)) if fr == 1 else ((2, 1), (2, 2))
        out += [
            ("Write", dict(name="overwrite fixed rank %d" % fr, state="fixed", frank=fr, shapes=s, over=True, w=10)),
            ("Write", dict(name="overwrite unlimited rank %d all" % fr, state="unlimited", frank=fr, shapes=s, over=True, part=False, w=10)),
            ("Write", dict(name="overwrite extensible rank %d" % fr, state="fixed", frank=fr, shapes=s, over=True, ext=True, w=10)),
            ("Write", dict(name="overwrite absent rank %d" % fr, frank=fr, shapes=s, over=True)),
            ("Write", dict(name="extensible rank %d" % fr, frank=fr, shapes=s, ext=True)),
            ("Write", dict(name="extensible chunked rank %d" % fr, frank=fr, shapes=s, ext=True, chunk=[1, 2][:fr], part=False)),
            ("Write", dict(name="extensible compressed rank %d" % fr, frank=fr, shapes=s[:1], ext=True, gz=True, chunk=[3, 2][:fr], part=False)),
            ("Write", dict(name="gzip rank %d" % fr, frank=fr, shapes=s[1:], gz=True, part=False)),
            ("Write", dict(name="gzip szip rank %d" % fr, frank=fr, shapes=s[1:], gz=True, szip=True, part=False)),
            ("Write", dict(name="initial size rank %d" % fr, frank=fr, shapes=s, init=True, w=10)),
            ("Write", dict(name="initial size, whole array, rank %d" % fr, frank=fr, shapes=s, init=True, part=False)),
            ("Write", dict(name="initial size extensible rank %d" % fr, frank=fr, shapes=s[1:], init=True, ext=True)),
        ]
        for e in (-1, 1):
            out.append(("Write", dict(name="write start and count of %d elements to rank %d" % (fr + e, fr), state="fixed", frank=fr, shapes=s, extra=e, w=10)))
            out.append(("Write", dict(name="write start and count of %d elements to new rank %d" % (fr + e, fr), frank=fr, shapes=s, extra=e, w=5)))
    for t, ft in (("i4", "i8"), ("r4", "r8"), ("r8", "r4"), ("i4", "r4"), ("r8", "i8"), ("i4", "c5"), ("c5", "i4"), ("c5", "c3")):
        out.append(("Write", dict(name="write %s to %s" % (t, ft), state="fixed", frank=1, shapes=((2,),), t=t, ft=ft)))
    out.append(("Write", dict(name="new scalar overwritten", state="fixed", frank=0, shapes=(None,), over=True, part=False, t="r8")))
    return out
