"""read_binary.BinaryFile: layout, byte order, records, hashing, copying."""
from .common import *

BOUNDS = ("files of up to 9 blocks (integer, float, string and structured types, up to 3 dimensions, zero sizes, gaps, "
          "nested groups, attributes) with every element symbolic; byte order set before, between and after blocks; "
          "record markers over all 32 bit values; files cut at any length; 3-5 files with room for 2 open files")
ASSUMPTIONS = ["structured types have fields in the byte order of the file (the byte order flag does not apply to them)",
               "hashes of different byte sequences differ"]

RB = "virgo.util.read_binary"


class B(H):
    mpi = False
    needs_files = True


def bvals(v, name, n, dt):
    """Symbolic elements, integers as their bits (bytes get rearranged)."""
    dt = nat(dt)
    if dt.kind in "iu":
        return [v.bits("%s[%d]" % (name, i), 8 * dt.itemsize, dt) for i in range(n)]
    return ivals(v, name, n, dt)


def swapped(e):
    return {"<": ">", ">": "<"}[e]


def nat(dt):
    return np.dtype(dt).newbyteorder("=")


class Layout(B):
    """A file described by a program of calls; then every block is read."""
    prog = ()
    end = "<"           # byte order of the file
    keys = "all"

    def blocks(self):
        off, out = 0, []
        for op in self.prog:
            if op[0] in ("ds", "at"):
                dt, shape = np.dtype(op[2]), tuple(op[3])
                out.append((op[0], op[1], dt, shape, off))
                off += dt.itemsize * int(np.prod(shape, dtype=int))
            elif op[0] == "rs":
                dt, shape = np.dtype(op[1]), tuple(op[2])
                out.append(("rs", None, dt, shape, off))
                off += dt.itemsize * int(np.prod(shape, dtype=int))
            elif op[0] == "skip":
                off += op[1]
        return out

    def inputs(self, v):
        d = []
        for k, (_, _, dt, shape, _) in enumerate(self.blocks()):
            n = int(np.prod(shape, dtype=int))
            d.append(self.elems(v, "b%d" % k, dt, n))
        return dict(d=d)

    def elems(self, v, name, dt, n):
        if dt.names:
            return [[bvals(v, "%s.%d.%s" % (name, i, f), 1, nat(dt.fields[f][0]))[0] for f in dt.names]
                    for i in range(n)]
        if dt.kind == "S":
            return [(b"ab%dcdefgh" % i)[:dt.itemsize] for i in range(n)]
        return bvals(v, name, n, nat(dt))

    def setup_files(self, env, inp):
        parts, pos = [], 0
        for (kind, name, dt, shape, off), e in sorted(zip(self.blocks(), inp["d"]), key=lambda x: x[0][4]):
            if off > pos:
                parts.append(b"\xaa" * (off - pos))
            if dt.names:
                for x in e:
                    for f, y in zip(dt.names, x):
                        parts.append((dt.fields[f][0], [y]))
            elif dt.kind == "S":
                parts.append(b"".join(x.ljust(dt.itemsize, b"\0") for x in e))
            else:
                parts.append((dt.newbyteorder(self.end) if dt.itemsize > 1 else dt, e))
            pos = off + dt.itemsize * len(e)
        self.tail = getattr(self, "tail", 0)
        parts.append(b"\x55" * self.tail)
        env.write_bin("f.bin", parts)

    def build(self, env):
        rb = env.load(RB)
        f = rb.BinaryFile(env.path("f.bin"))
        rs = []
        for op in self.prog:
            if op[0] == "ds":
                f.add_dataset(op[1], np.dtype(op[2]), self.shp(env, op[3]))
            elif op[0] == "at":
                f.add_attribute(op[1], np.dtype(op[2]), self.shp(env, op[3]))
            elif op[0] == "skip":
                f.skip_bytes(op[1])
            elif op[0] == "endian":
                f.set_endian(op[1])
            elif op[0] == "swap":
                f.enable_byteswap(op[1])
            elif op[0] == "toggle":
                f.toggle_byteswap()
            elif op[0] == "rs":
                rs.append(f.read_and_skip(np.dtype(op[1]), op[2]))
        return f, rs

    shapetype = None

    def shp(self, env, s):
        if self.shapetype is None:
            return tuple(s)
        return tuple(env.np.asarray(x, dtype=self.shapetype)[()] for x in s)

    def keylist(self, shape):
        n = len(shape)
        ks = [Ellipsis]
        if n == 0:
            return ks + [()]
        a = shape[0]
        ks += [slice(0, a, 2), slice(None, None, -1), slice(1, None), slice(0, 0)]
        if a:
            ks += [0, -1, a // 2, [0, a - 1, 0]]
        if n > 1 and a:
            ks += [(Ellipsis, slice(0, 1)), (slice(None), -1), (0, slice(1, None)), (-1,)]
            if n > 2:
                ks += [(slice(0, 1), Ellipsis, 0)]
        return ks

    def look(self, f, path, attr):
        if not attr:
            return f[path]
        head, _, tail = path.rpartition("/")
        return (f[head] if head else f).attrs[tail]

    def rank(self, env, comm, r, inp):
        f, rs = self.build(env)
        res = []
        for (kind, name, dt, shape, off), e in zip(self.blocks(), inp["d"]):
            if kind == "rs":
                res.append([(None, rs.pop(0))])
            elif kind == "at":
                res.append([(None, self.look(f, name, True))])
            else:
                d = f[name]
                got = [(k, d[k]) for k in self.keylist(shape)]
                if shape:
                    got.append(("iter", [x for x in d]))
                    got.append(("len", (len(d), d.len())))
                    got.append(("array", env.np.asarray(d) if not env.sym else d.__array__()))
                    if dt.kind in "iu" and dt.itemsize <= 4:
                        got.append(("astype", d.__array__(np.dtype("f8"))))
                got.append((Ellipsis, d.value))
                got.append(("meta", (tuple(d.shape), np.dtype(d.dtype), d.size)))
                res.append(got)
        names = self.names(f)
        f.close()
        again = [f[name][...] for kind, name, dt, shape, off in self.blocks() if kind == "ds"]
        f.close()
        return dict(res=res, names=names, again=again, open=env.open_files())

    def names(self, g, pre=""):
        out = []
        for k in g.keys():
            assert k in g
            x = g[k]
            if hasattr(x, "keys"):
                assert len(x) == len(list(x.keys()))
                out += [pre + k + "/@" + a for a in x.attrs.keys()]
                out += self.names(x, pre + k + "/")
            else:
                out.append(pre + k)
                out += [pre + k + "/@" + a for a in x.attrs.keys()]
        if not pre:
            out += ["@" + a for a in g.attrs.keys()]
        return sorted(out)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        want = []
        for kind, name, dt, shape, off in self.blocks():
            if kind == "ds":
                want.append(name.strip("/"))
            elif kind == "at":
                h, _, t = name.strip("/").rpartition("/")
                want.append((h + "/@" if h else "@") + t)
        if o["names"] != sorted(want):
            chk.fail("names in the file are %s, expected %s" % (o["names"], sorted(want)))
        if o["open"] != 0:
            chk.fail("file left open after close")
        again = list(o["again"])
        for (kind, name, dt, shape, off), e, got in zip(self.blocks(), inp["d"], o["res"]):
            e = [tuple(x) if isinstance(x, list) else x for x in e]
            ix = np.arange(len(e)).reshape(shape)
            lab = "%s (offset %d)" % (name, off)
            for k, g in got:
                if k == "iter":
                    if len(g) != shape[0]:
                        chk.fail("%s: iteration gives %d items" % (lab, len(g)))
                    for i, x in enumerate(g):
                        self.val(chk, x, [e[j] for j in ix[i].reshape(-1)], dt, shape[1:], lab + " item %d" % i)
                elif k == "len":
                    if tuple(g) != (shape[0], shape[0]):
                        chk.fail(lab + ": len is %s" % (g,))
                elif k == "meta":
                    if tuple(g[0]) != tuple(shape) or g[1] != dt or int(g[2]) != len(e):
                        chk.fail("%s: shape, dtype, size are %s" % (lab, g))
                elif k == "array":
                    self.val(chk, g, e, dt, shape, lab + " as array")
                elif k == "astype":
                    chk.arr(g, [x for x in e], lab + " as float array", dt="f8", shape=shape)
                else:
                    w = ix if k is None else ix[k]
                    w = np.asarray(w)
                    self.val(chk, g, [e[j] for j in w.reshape(-1)], dt, w.shape, "%s[%s]" % (lab, k))
            if kind == "ds":
                self.val(chk, again.pop(0), e, dt, shape, lab + " after close")

    def val(self, chk, g, e, dt, shape, msg):
        if dt.names:
            if not is_array(g):
                if shape == ():
                    return self.tup(chk, g, e[0], msg)
                chk.fail(msg + ": not an array")
            if shp(g) != tuple(shape):
                chk.fail("%s: shape %s, expected %s" % (msg, shp(g), tuple(shape)))
            if np.dtype(g.dtype) != dt:
                chk.fail("%s: dtype %s, expected %s" % (msg, g.dtype, dt))
            for i, x in enumerate(els(g)):
                self.tup(chk, x, e[i], msg)
            return
        if not is_array(g):
            if shape != ():
                chk.fail(msg + ": not an array")
            return chk.eq(g, e[0] if dt.kind != "S" else e[0].rstrip(b"\0"), msg)
        w = e if dt.kind != "S" else [x.rstrip(b"\0") for x in e]
        chk.arr(g, w, msg, dt=dt, shape=shape)

    def tup(self, chk, g, e, msg):
        chk.eqlist(list(g) if isinstance(g, (tuple, list)) else [g[n] for n in g.dtype.names], list(e), msg)


class Cut(B):
    """Blocks which do not lie inside the file are refused."""
    size = 12

    def inputs(self, v):
        return dict(start=v.choice("start", 5) * 4 - 4, n=v.choice("n", 5), x=bvals(v, "x", self.size // 4, "i4"))

    def setup_files(self, env, inp):
        env.write_bin("f.bin", [("<i4", inp["x"]), b"\x01" * (self.size % 4)])

    def rank(self, env, comm, r, inp):
        f = env.load(RB).BinaryFile(env.path("f.bin"))
        f.skip_bytes(inp["start"])
        f.add_dataset("d", np.int32, (inp["n"],))
        try:
            return dict(err=False, d=f["d"][...])
        except IOError:
            return dict(err=True)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        a, b = inp["start"], inp["start"] + 4 * inp["n"]
        ok = a >= 0 and b <= self.size
        if ok:
            chk.that(not o["err"], "data inside the file could not be read")
            chk.arr(o["d"], inp["x"][a // 4:b // 4], "data", shape=(inp["n"],))
        else:
            chk.that(o["err"], "data outside the file was returned")


class Record(B):
    """Fortran record markers, with and without automatic byte swapping."""
    n = 3               # int32 elements in the record
    auto = False
    end = "="           # byte order set by the caller
    before = False      # another block before the record
    nrec = 1

    def inputs(self, v):
        recs = []
        for i in range(self.nrec):
            n = self.size(i)
            recs.append(dict(a=self.mark(v, "a%d" % i, n), b=self.mark(v, "b%d" % i, n), x=bvals(v, "x%d" % i, n, "i4")))
        return dict(recs=recs, pre=bvals(v, "pre", 1, "i4"))

    marks = "free"

    def isauto(self, i):
        """Automatic byte order: in all records, in none or in the first only."""
        return i == 0 if self.auto == "first" else self.auto

    def size(self, i):
        return self.n[i] if isinstance(self.n, list) else self.n

    def mark(self, v, name, size):
        """Marker as stored in little endian order."""
        if self.marks == "free":
            return v.bits(name, 32, "i4")
        n = 4 * size
        le = [n, swap32(n), n + 4, swap32(n + 4), n - 1, 0][v.choice(name, 6)]
        return np.int32(le)

    def setup_files(self, env, inp):
        parts = [("<i4", inp["pre"])] if self.before else []
        for rec in inp["recs"]:
            parts += [("<i4", [rec["a"]]), ("<i4", rec["x"]), ("<i4", [rec["b"]])]
        env.write_bin("f.bin", parts)

    def rank(self, env, comm, r, inp):
        f = env.load(RB).BinaryFile(env.path("f.bin"))
        f.set_endian(self.end)
        if self.before:
            f.add_dataset("pre", np.int32, (1,))
        try:
            for i in range(self.nrec):
                f.start_fortran_record(auto_byteswap=self.isauto(i))
                f.add_dataset("x%d" % i, np.int32, (self.size(i),))
                f.end_fortran_record()
        except IOError:
            return dict(err=True)
        return dict(err=False, x=[f["x%d" % i][...] for i in range(self.nrec)], pre=f["pre"][...] if self.before else None,
                    used=f.all_bytes_used())

    def oracle(self, chk, inp, outs):
        o = outs[0]
        # the byte order assumed at first; every element is stored little endian
        big = self.end == ">"
        for i, rec in enumerate(inp["recs"]):
            n = 4 * self.size(i)
            good, other = (swap32(n), n) if big else (n, swap32(n))
            a, b = rec["a"], rec["b"]
            same = scalar_eq(a, b)
            ok = sand(same, scalar_eq(a, np.int32(good)))
            sw = sand(same, scalar_eq(a, np.int32(other))) if self.isauto(i) else False
            if o["err"]:
                if not truth(sor(ok, sw)):
                    return
            else:
                chk.that(sor(ok, sw), "record with wrong markers accepted")
            if truth(sw) and not truth(ok):
                big = not big
        if o["err"]:
            chk.fail("record with correct markers refused")

        def rd(x):
            return x.byteswap() if big else x
        for i, rec in enumerate(inp["recs"]):
            chk.arr(o["x"][i], [rd(np.int32(x) if not is_sym(x) else x) for x in rec["x"]], "data in record %d" % i)
        if self.before:
            chk.arr(o["pre"], [rd(np.int32(x) if not is_sym(x) else x) for x in inp["pre"]], "block before the record")
        chk.that(o["used"], "all bytes are in blocks but all_bytes_used() is False")


def truth(c):
    return bool(c)


def swap32(n):
    return int(np.int32(n).byteswap())


class LongRecord(B):
    """Automatic byte swapping is refused for records of 64 kbytes or more."""
    n = 65536

    def inputs(self, v):
        return dict(auto=v.choice("auto", 2) == 1)

    def setup_files(self, env, inp):
        env.write_bin("f.bin", [("<i4", [np.int32(self.n)]), b"\0" * self.n, ("<i4", [np.int32(self.n)])])

    def rank(self, env, comm, r, inp):
        f = env.load(RB).BinaryFile(env.path("f.bin"))
        f.start_fortran_record(auto_byteswap=inp["auto"])
        f.skip_bytes(self.n)
        try:
            f.end_fortran_record()
        except IOError:
            return True
        return False

    def oracle(self, chk, inp, outs):
        if outs[0] != (inp["auto"] and self.n > 65535):
            chk.fail("record of %d bytes, automatic byte swap %s: refused is %s" % (self.n, inp["auto"], outs[0]))


class Used(B):
    """all_bytes_used() is True exactly if the blocks tile the file; hash()."""
    size = 6

    def inputs(self, v):
        pos, b = 0, []
        for i in range(self.nb):
            b.append((v.choice("skip%d" % i, 3) - 1, v.choice("n%d" % i, 3)))
        return dict(b=b, x=[np.uint8(7 * i + 1) for i in range(self.size)], kind=v.choice("k", 2))

    def setup_files(self, env, inp):
        env.write_bin("f.bin", [("u1", inp["x"])])

    def rank(self, env, comm, r, inp):
        f = env.load(RB).BinaryFile(env.path("f.bin"))
        for i, (s, n) in enumerate(inp["b"]):
            f.skip_bytes(s)
            if i % 2:
                f.add_attribute("b%d" % i, np.uint8, (n,))
            else:
                f.add_dataset("b%d" % i, np.uint8, (n,))
        u = f.all_bytes_used()
        h = None
        kw = {} if inp["kind"] == 0 else dict(hash_type="md5")
        try:
            h = env.same_digest(f.hash(**kw), env.digest(kw.get("hash_type", "sha1"), [("u1", inp["x"])]))
        except IOError:
            h = "refused"
        return dict(u=bool(u), h=h)

    def oracle(self, chk, inp, outs):
        cnt = [0] * self.size
        pos, out = 0, False
        for s, n in inp["b"]:
            pos += s
            for k in range(n):
                if 0 <= pos + k < self.size:
                    cnt[pos + k] += 1
                else:
                    out = True
            pos += n
        want = all(c == 1 for c in cnt) and not out
        o = outs[0]
        # empty blocks may be anywhere, and may make a tiled file count as not tiled
        empty = any(n == 0 for s, n in inp["b"])
        if o["u"] and not want:
            chk.fail("all_bytes_used() although the blocks do not tile the file")
        if want and not o["u"] and not empty:
            chk.fail("all_bytes_used() is False although the blocks tile the file")
        if not o["u"]:
            chk.that(o["h"] == "refused", "file hashed although not all bytes belong to a block")
        else:
            if isinstance(o["h"], str):
                chk.fail("hash refused")
            chk.that(o["h"], "hash differs from the hash of the file")


class Copy(Layout):
    """write_binary / hash / write_hdf5 of a file with no gaps."""
    out = None
    mode = None
    gzip = 6

    def rank(self, env, comm, r, inp):
        f, rs = self.build(env)
        res = {}
        res["hash"] = env.same_digest(f.hash(), env.digest("sha1", self.parts(inp, "<")))
        kw = {}
        if self.mode:
            kw["mode"] = self.mode
        if self.out:
            kw["endian"] = self.out
        f.write_binary(env.path("g.bin"), **kw)
        again = None
        try:
            f.write_binary(env.path("g.bin"))
            again = False
        except (IOError, OSError):
            again = True
        res["again"] = again
        res["size"] = env.file_size("g.bin")
        res["bin"] = env.parse_bin("g.bin", [(self.odt(b[2]), int(np.prod(b[3], dtype=int))) for b in self.blocks()])
        f.write_hdf5(env.path("g.hdf5"), **({} if self.gzip == 6 else dict(gzip=self.gzip)))
        h5py = env.mod("h5py")
        vals = []
        with h5py.File(env.path("g.hdf5"), "r") as h:
            for kind, name, dt, shape, off in self.blocks():
                if kind == "ds":
                    vals.append(h[name][...])
                else:
                    a, _, t = name.strip("/").rpartition("/")
                    vals.append((h[a] if a else h).attrs[t])
            res["top"] = sorted(h.keys())
        res["h5"] = vals
        return res

    def odt(self, dt):
        """Byte order of the copy: as asked, else that of the type in memory."""
        if dt.itemsize == 1:
            return dt
        return dt.newbyteorder(self.out) if self.out else dt

    def parts(self, inp, end):
        out = []
        for (kind, name, dt, shape, off), e in zip(self.blocks(), inp["d"]):
            out.append((dt.newbyteorder(end) if dt.itemsize > 1 else dt, e))
        return out

    def oracle(self, chk, inp, outs):
        o = outs[0]
        chk.that(o["hash"], "hash is not that of the data in little endian order")
        chk.that(o["again"], "existing file overwritten by default")
        b = self.blocks()
        n = sum(x[2].itemsize * int(np.prod(x[3], dtype=int)) for x in b)
        if o["size"] != n:
            chk.fail("copy has %d bytes instead of %d" % (o["size"], n))
        for x, e, g, h in zip(b, inp["d"], o["bin"], o["h5"]):
            if g is None:
                chk.fail("copy is too short")
            chk.eqlist(list(g), e, "copy of %s" % x[1])
            if h is not None:
                if is_array(h):
                    chk.arr(h, e, "HDF5 copy of %s" % x[1], shape=x[3])
                    if np.dtype(h.dtype).newbyteorder("=") != nat(x[2]):
                        chk.fail("HDF5 copy of %s has type %s" % (x[1], h.dtype))
                else:
                    chk.eq(h, e[0], "HDF5 copy of %s" % x[1])
        top = sorted({x[1].strip("/").split("/")[0] for x in b if x[0] == "ds" or "/" in x[1].strip("/")})
        if o["top"] != top:
            chk.fail("HDF5 copy contains %s, expected %s" % (o["top"], top))


class Gaps(Layout):
    """write_binary of a file with bytes which belong to no block."""
    out = None

    def rank(self, env, comm, r, inp):
        f, rs = self.build(env)
        f.write_binary(env.path("g.bin"), **(dict(endian=self.out) if self.out else {}))
        pos, lay, use = 0, [], []
        for kind, name, dt, shape, off in self.blocks():
            if off > pos:
                lay.append((np.dtype("u1"), off - pos))
            n = int(np.prod(shape, dtype=int))
            use.append(len(lay))
            lay.append((dt.newbyteorder(self.out) if self.out and dt.itemsize > 1 else dt, n))
            pos = off + n * dt.itemsize
        b = env.parse_bin("g.bin", lay)
        return dict(size=env.file_size("g.bin"), want=pos, bin=[b[i] for i in use])

    def oracle(self, chk, inp, outs):
        o = outs[0]
        if o["size"] != o["want"]:
            chk.fail("copy has %d bytes instead of %d" % (o["size"], o["want"]))
        for x, e, g in zip(self.blocks(), inp["d"], o["bin"]):
            if g is None:
                chk.fail("copy is too short")
            chk.eqlist(list(g), e, "copy of %s" % x[1])


class Cache(B):
    """Many files, few of them open at a time."""
    nfiles = 4
    maxopen = 2
    steps = 4

    def inputs(self, v):
        return dict(x=[bvals(v, "x%d" % i, 2, "i4") for i in range(self.nfiles)],
                    seq=[(v.choice("s%d" % i, self.nfiles), v.choice("c%d" % i, 2) if i in self.closes else 0)
                         for i in range(self.steps)])

    closes = ()

    def setup_files(self, env, inp):
        for i, x in enumerate(inp["x"]):
            env.write_bin("f%d.bin" % i, [("<i4", x)])

    def rank(self, env, comm, r, inp):
        rb = env.load(RB)
        rb.BinaryDataset.max_files = self.maxopen
        rb.BinaryDataset.file_cache.clear()
        fs = []
        for i in range(self.nfiles):
            f = rb.BinaryFile(env.path("f%d.bin" % i))
            f.add_dataset("a", np.int32)
            f.add_dataset("b", np.int32)
            fs.append(f)
        out, nopen = [], 0
        for s, (i, c) in enumerate(inp["seq"]):
            out.append(fs[i]["ab"[s % 2]][()])
            nopen = max(nopen, env.open_files())
            if c:
                fs[i].close()
        for f in fs:
            f.close()
        rb.BinaryDataset.max_files = 32
        return dict(out=out, nopen=nopen, left=env.open_files())

    def oracle(self, chk, inp, outs):
        o = outs[0]
        for s, (i, c) in enumerate(inp["seq"]):
            chk.eq(o["out"][s], inp["x"][i][s % 2], "value read from file %d in step %d" % (i, s))
        if o["nopen"] > self.perfile * self.maxopen:
            chk.fail("%d files open at once, at most %d allowed" % (o["nopen"], self.perfile * self.maxopen))
        if o["left"]:
            chk.fail("%d files left open" % o["left"])

    perfile = 1


ST = [("a", "<i4"), ("b", "<f4"), ("c", "<u8")]
PROGS = dict(
    flat=[("ds", "a", "i4", (3,)), ("ds", "b", "f8", (2, 2)), ("ds", "c", "u2", ()), ("ds", "d", "i8", (0,))],
    types=[("ds", "a", "u1", (3,)), ("ds", "b", "i2", (2,)), ("ds", "c", "u8", (2,)), ("ds", "s", "S5", (2,)),
           ("ds", "f", "f4", (3,))],
    groups=[("at", "n", "i4", ()), ("at", "Header/NumPart", "u4", (3,)), ("ds", "PartType1/Pos", "f4", (2, 3)),
            ("ds", "PartType1/ID", "u8", (2,)), ("ds", "PartType0/Pos", "f4", (1, 3)), ("at", "PartType0/k", "i2", ()),
            ("ds", "g/h/deep", "i4", (2,)), ("at", "g/h/at", "i4", (2,))],
    gaps=[("skip", 5), ("ds", "a", "i4", (2,)), ("skip", 3), ("rs", "i2", (2,)), ("skip", 8), ("skip", -4),
          ("ds", "/x/y", "i4", (2, 1, 2)), ("at", "z", "f8", (1,))],
    holes=[("skip", 3), ("ds", "a", "i4", (2,)), ("skip", 5), ("ds", "g/b", ">u2", (3,)), ("at", "g/n", "i8", ()), ("skip", 1),
           ("ds", "c", "u1", (2,)), ("rs", "f4", (1,))],
    dsattr=[("ds", "a", "i4", (2,)), ("at", "a/unit", "i4", ()), ("ds", "g/b", "i2", (3,)), ("at", "g/b/scale", "f8", (2,))],
    struct=[("ds", "h", ST, (2,)), ("ds", "n", "i4", ()), ("ds", "one", ST, ())],
    foreign=[("ds", "a", ">i4", (3,)), ("ds", "b", "<i4", (3,)), ("rs", ">u2", ()), ("ds", "c", ">f8", (2,))],
    tile=[("at", "n", "i4", ()), ("ds", "a", "i4", (2,)), ("ds", "g/b", "u2", (2, 2)), ("at", "g/c", "i8", ()), ("ds", "d", "u1", (3,)),
          ("ds", "e", ">i4", (2,)), ("at", "a/unit", "i2", (2,)), ("ds", "z", "f4", (0, 3))],
)
STR = {"struct"}


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    for nm, p in sorted(PROGS.items()):
        for end in "<>":
            if nm in STR:
                if end == "<":
                    add("Layout", nm, prog=p, end=end)
                continue
            sw = end == ">"
            first = p.index(next(x for x in p if x[0] in ("ds", "at", "rs")))
            add("Layout", "%s-%s-before" % (nm, end), prog=[("endian", end)] + p, end=end)
            add("Layout", "%s-%s-swap" % (nm, end), prog=[("swap", sw)] + p, end=end)
            if not any(x[0] == "rs" for x in p):
                add("Layout", "%s-%s-after" % (nm, end), prog=[("endian", ">")] + p + [("endian", end)], end=end)
                add("Layout", "%s-%s-middle" % (nm, end), prog=p[:3] + [("swap", sw)] + p[3:], end=end)
                add("Layout", "%s-%s-toggle" % (nm, end),
                    prog=p[:1] + [("toggle",)] + p[1:] + ([("toggle",)] if end == "<" else []), end=end)
                add("Layout", "%s-%s-toggle2" % (nm, end),
                    prog=[("endian", swapped(end))] + p[:2] + [("toggle",)] + p[2:], end=end)
    for st in ("i4", "u4", "u8", "i8"):
        for nm in ("flat", "gaps"):
            add("Layout", "shape-%s-%s" % (nm, st), prog=PROGS[nm], end="<", shapetype=st)
    for size in (0, 11, 12):
        if size:
            add("Cut", str(size), size=size)
    for auto in (False, True):
        for end in "=<>":
            for n in (1, 3):
                add("Record", "free-%d-%s-%s" % (n, auto, end), n=n, auto=auto, end=end)
            add("Record", "listed-%s-%s" % (auto, end), n=3, auto=auto, end=end, marks="listed", before=True)
            add("Record", "two-%s-%s" % (auto, end), n=2, auto=auto, end=end, marks="free", nrec=2)
            for n in ([0, 2], [2, 0, 1], [0, 0, 3]):
                for a in (auto, "first") if auto else (auto,):
                    add("Record", "sizes-%s-%s-%s" % (".".join(map(str, n)), a, end), n=n, nrec=len(n), auto=a, end=end)
    for n in (65535, 65536):
        add("LongRecord", str(n), n=n, w=40, novalidate=n != 65536)
    for nb in (1, 2, 3) + ((4,) if T else ()):
        add("Used", "%d" % nb, nb=nb, size=2 * min(nb, 2), w=9 ** nb // 20)
    for out in (None, "<", ">"):
        for end in "<>":
            p = [("endian", end)] + PROGS["tile"]
            add("Copy", "%s-from-%s" % (out, end), prog=p, end=end, out=out, gzip=6 if out else 0)
    for out in (None, "<", ">"):
        for end in "<>":
            add("Gaps", "%s-from-%s" % (out, end), prog=[("endian", end)] + PROGS["holes"], end=end, out=out)
    add("Copy", "mode", prog=PROGS["tile"], end="<", mode="wb", out="<")
    add("Cache", "4-2", nfiles=4, maxopen=2, steps=4 + T, w=300)
    add("Cache", "3-1", nfiles=3, maxopen=1, steps=5, w=250)
    add("Cache", "3-2-close", nfiles=3, maxopen=2, steps=4, closes=(0, 1, 2), w=250)
    return L
