"""PartialFormatter and read_multi."""
from .common import *

BOUNDS = ("templates of up to 3 pieces out of 12 (literal text, escaped braces, named fields with format specs, "
          "conversions, repeated fields), each value given, None or missing, numbers 0..12; 0-3 files chosen in any order "
          "(repeats included) from 3 files holding 0-2 rows or lacking the dataset, HDF5 and binary readers, both axes")
ASSUMPTIONS = ["fields left unsubstituted are plain names with an optional conversion and a format spec without "
               "nested fields", "at least one of the files has the dataset (otherwise there is nothing to return)"]

# a piece: template text, field name or None, spec, conversion
PIECES = [("x_", None, "", ""), ("{a}", "a", "", ""), ("{a:03d}", "a", "03d", ""), ("{b}", "b", "", ""),
          ("{b:>4}", "b", ">4", ""), ("{c:d}", "c", "d", ""), (".%d%%", None, "", ""), ("{name!r}", "name", "", "r"),
          ("{c:+x}", "c", "+x", ""), ("{name:_<5}", "name", "_<5", ""), ("{b!s:5}", "b", "5", "s"), ("", None, "", "")]


class Partial(H):
    mpi = False
    ignore = False
    np_ = 2

    def inputs(self, v):
        pcs = [v.choice("p%d" % i, len(PIECES)) for i in range(self.np_)]
        used = sorted({PIECES[p][1] for p in pcs} - {None})
        st, vals = {}, {}
        for n in used:
            st[n] = v.choice("st_" + n, 3)          # 0 given, 1 None, 2 missing
            vals[n] = v.choice("val_" + n, 3) * 6 if n != "name" else ("ab", "")[v.choice("val_" + n, 2)]
        return dict(p=pcs, st=st, vals=vals, extra=v.choice("extra", 2))

    def rank(self, env, comm, r, inp):
        pf = env.load("virgo.util.partial_formatter")
        f = pf.PartialFormatter(ignore_missing=True) if self.ignore else pf.PartialFormatter()
        t = "".join(PIECES[p][0] for p in inp["p"])
        kw = {n: inp["vals"][n] if s == 0 else None for n, s in inp["st"].items() if s < 2}
        if inp["extra"]:
            kw["zzz"] = 1
        try:
            first = f.format(t, **kw)
        except KeyError:
            return dict(err=True)
        second = f.format(first, **{n: inp["vals"][n] for n in inp["st"]})
        return dict(err=False, first=first, second=second, lit=f.format("{{x}}{a}", a=1))

    def oracle(self, chk, inp, outs):
        o = outs[0]
        want = ""
        missing = any(s == 2 for s in inp["st"].values()) and not self.ignore
        if o["err"] != missing:
            chk.fail("KeyError raised is %s, expected %s" % (o["err"], missing))
        if missing:
            return
        full = ""
        for p in inp["p"]:
            t, n, spec, conv = PIECES[p]
            if n is None:
                want += t
                full += t
                continue
            val = inp["vals"][n]
            val = repr(val) if conv == "r" else str(val) if conv == "s" else val
            full += format(val, spec)
            want += format(val, spec) if inp["st"][n] == 0 else t
        if o["first"] != want:
            chk.fail("partly formatted: %r, expected %r" % (o["first"], want))
        if o["second"] != full:
            chk.fail("formatted in two steps: %r, expected %r" % (o["second"], full))
        if o["lit"] != "{x}1":
            chk.fail("escaped braces give %r" % o["lit"])


class Positional(H):
    mpi = False

    def inputs(self, v):
        return dict(a=v.choice("a", 3), b=v.choice("b", 3) * 7, ig=v.choice("ig", 2), none=v.choice("none", 2))

    def rank(self, env, comm, r, inp):
        pf = env.load("virgo.util.partial_formatter")
        f = pf.PartialFormatter(ignore_missing=bool(inp["ig"]))
        return [f.format("{0}.{1:02d}.{0}", inp["a"], inp["b"]), f.format("{}_{}", inp["a"], inp["b"]),
                f.format("{}_{c:02d}", inp["b"], **({} if inp["ig"] and not inp["none"] else dict(c=None)))]

    def oracle(self, chk, inp, outs):
        a, b = inp["a"], inp["b"]
        want = ["%d.%02d.%d" % (a, b, a), "%d_%d" % (a, b), "%d_{c:02d}" % b]
        for g, w in zip(outs[0], want):
            if g != w:
                chk.fail("formatted %r, expected %r" % (g, w))


class ReadMulti(H):
    mpi = False
    needs_files = True
    kind = "hdf5"
    names = ("A", "B")
    axis = 0
    tail = ()
    nidx = 2
    nf = 3
    idxkind = "list"

    def inputs(self, v):
        idx = [v.choice("i%d" % k, self.nf) for k in range(self.nidx)]
        files = []
        for i in range(self.nf):
            d = {}
            for nm in self.names:
                if i not in idx:
                    d[nm] = (1, self.vals(v, nm, i, 1))
                    continue
                n = v.choice("n%s%d" % (nm, i), 4) - 1
                d[nm] = None if n < 0 else (n, self.vals(v, nm, i, n))
            files.append(d)
        for nm in self.names:
            if idx and not any(files[i][nm] is not None for i in idx):
                files[idx[0]][nm] = (1, self.vals(v, nm + "x", idx[0], 1))
        return dict(idx=idx, files=files)

    def vals(self, v, nm, i, n):
        m = n * int(np.prod(self.tail, dtype=int))
        if nm[0] == "A":
            return [v.bits("%s%d[%d]" % (nm, i, k), 32, "i4") for k in range(m)]
        return ivals(v, "%s%d" % (nm, i), m, "f8")

    def shape(self, n):
        return (n,) + tuple(self.tail) if self.axis == 0 else (self.tail[0], n) + tuple(self.tail[1:])

    def setup_files(self, env, inp):
        for i, d in enumerate(inp["files"]):
            if self.kind == "hdf5":
                h5py = env.mod("h5py")
                with h5py.File(env.path("f_%03d.x" % i), "w") as f:
                    for nm in self.names:
                        if d[nm] is not None:
                            f[nm] = env.arr(d[nm][1], "i4" if nm == "A" else "f8", self.shape(d[nm][0]))
            else:
                parts = [("<i4", [np.int32(d[nm][0] if d[nm] is not None else -1) for nm in self.names])]
                for nm in self.names:
                    if d[nm] is not None:
                        parts.append(("<i4" if nm == "A" else "<f8", d[nm][1]))
                env.write_bin("f_%03d.x" % i, parts)

    def rank(self, env, comm, r, inp):
        rm = env.load("virgo.util.read_multi")
        args, kw = (), {}
        if self.kind != "hdf5":
            rb = env.load("virgo.util.read_binary")
            me = self

            class Reader(rb.BinaryFile):
                def __init__(self, fname, scale, *, tail):
                    rb.BinaryFile.__init__(self, fname)
                    assert scale == 7
                    n = self.read_and_skip(np.int32, (len(me.names),))
                    for k, nm in enumerate(me.names):
                        if int(n[k]) >= 0:
                            self.add_dataset(nm, np.int32 if nm == "A" else np.float64, me.shape(int(n[k])))
            args, kw = (7,), dict(tail=self.tail)
            k0 = dict(file_type=Reader)
        else:
            k0 = {}
        fmt = env.path("f_%(i)03d.x")
        idx = inp["idx"]
        if self.idxkind == "array":
            idx = env.np.asarray(idx, dtype=np.int32)
        if self.kind != "hdf5":
            res = rm.read_multi(fmt, idx, self.names, Reader, self.axis, *args, **kw)
        elif self.axis:
            res = rm.read_multi(fmt, idx, self.names, axis=self.axis)
        else:
            res = rm.read_multi(fmt, idx, list(self.names))
        return dict(res=dict(res), order=list(res.keys()))

    def oracle(self, chk, inp, outs):
        o = outs[0]
        if o["order"] != list(self.names):
            chk.fail("datasets returned: %s" % o["order"])
        for nm in self.names:
            have = [inp["files"][i][nm] for i in inp["idx"] if inp["files"][i][nm] is not None]
            ntot = sum(h[0] for h in have)
            if self.axis == 0:
                want = flat([h[1] for h in have])
            else:
                c = [np.arange(len(h[1])).reshape(self.shape(h[0])) for h in have]
                base, lst, parts = 0, [], []
                for h, x in zip(have, c):
                    parts.append(x + base)
                    base += len(h[1])
                    lst += h[1]
                want = [lst[k] for k in np.concatenate(parts, axis=self.axis).reshape(-1)]
            chk.arr(o["res"][nm], want, nm, dt="i4" if nm == "A" else "f8", shape=self.shape(ntot))


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    for ig in (False, True):
        add("Partial", "1-%s" % ig, np_=1, ignore=ig)
        add("Partial", "2-%s" % ig, np_=2, ignore=ig, w=50)
        if T:
            add("Partial", "3-%s" % ig, np_=3, ignore=ig, w=500)
    add("Positional", "p")
    for kind in ("hdf5", "bin"):
        for n in (1, 2) + ((3,) if T else ()):
            add("ReadMulti", "%s-%d" % (kind, n), kind=kind, nidx=n, names=("A",) if n > 2 else ("A", "B"), w=20 * n)
        add("ReadMulti", kind + "-one-3", kind=kind, nidx=3, names=("B",), w=100)
        add("ReadMulti", kind + "-array", kind=kind, nidx=2, names=("B",), idxkind="array", w=100)
        add("ReadMulti", kind + "-tail", kind=kind, nidx=2, names=("A",), tail=(3,), w=30)
        add("ReadMulti", kind + "-axisneg", kind=kind, nidx=2, names=("A",), tail=(2,), axis=-1, w=30)
        add("ReadMulti", kind + "-axis1", kind=kind, nidx=2, names=("A",), tail=(2,), axis=1, w=30)
        add("ReadMulti", kind + "-axis1-3", kind=kind, nidx=2, names=("B",), tail=(2, 2), axis=1, w=30)
    return L
