"""Programs using the Fortran HDF5 wrapper, run symbolically (fortran.py) or compiled against the real wrapper.

A program is a list of operations on files:
  ("create", handle, file)  ("open", handle, file, readonly)  ("close", handle)
  ("write", handle, name, type, dims, values, options)   ("read", handle, name, type, dims, options)
  ("wattr", handle, name, type, dims, values, options)   ("rattr", handle, name, type, dims)
  ("dims", handle, name)  ("type", handle, name)  ("group", handle, name)  ("list", what, handle, name)
handle is the name of a variable, or an integer; dims are array dimensions in Fortran order (None: a scalar); values are
flat, first index fastest; types are i4 i8 r4 r8 or cN.  Result: (status, results, contents); status is "done", "abort"
(the wrapper stopped the program), "crash" (memory error) or "compile" (no such routine).
"""
import os
import subprocess

from . import core

FLAGS = ["-O0", "-g", "-fcheck=all", "-fallow-argument-mismatch", "-w", "-I/usr/include/hdf5/serial"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_fortran", "-lhdf5",
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial"]
SENT = 77        # what the array passed to a read holds before


def token(v, n):
    """Text standing for the integer v in a character dataset."""
    return ("%d" % v if v else "")[:n]


def untoken(s):
    s = s.replace("\0", " ").strip()
    return 0 if not s else int(s) if s.lstrip("-").isdigit() else "?" + s


def tinfo(t):
    k = int(t[1:])
    return {"i": "int", "r": "float", "c": "str", "x": "compound"}[t[0]], k


def injective(q, dims=None):
    """Value identifying the (zero based) coordinates q."""
    v = 0
    for d, c in enumerate(q):
        v = v + (c + 1) * 10 ** d
    return v if len(q) else 5


# --------------------------------------------------------------- contents
class Contents:
    """What a file holds at the end: objects by path."""

    def __init__(self):
        self.o = {}


class SymData:
    def __init__(self, ds):
        self.ds = ds
        self.kind = "dset"
        self.type, self.dims = ds.ty[:2], list(ds.dims)
        self.unlimited = [m == -1 for m in ds.maxdims] if ds.chunk is not None else [False] * len(ds.dims)
        self.gzip, self.shuffle = ds.filters[1] if ds.filters else None, bool(ds.filters and ds.filters[0])
        self.chunk = ds.chunk

    def value(self, q):
        return self.ds.value(q)


class RealData:
    def __init__(self, d):
        import numpy as np
        self.kind = "dset"
        k = d.dtype.kind
        self.type = ({"i": "int", "f": "float", "S": "str"}.get(k, "compound"), d.dtype.itemsize)
        self.dims = [int(x) for x in d.shape[::-1]]
        m = d.maxshape[::-1] if d.maxshape is not None else ()
        self.unlimited = [x is None for x in m]
        self.gzip = d.compression_opts if d.compression == "gzip" else None
        self.shuffle = bool(d.shuffle)
        self.chunk = list(d.chunks[::-1]) if d.chunks else None
        a = np.asarray(d[()])
        self.a = a.astype("S%d" % d.dtype.itemsize) if k == "S" else a

    def value(self, q):
        if any(not 0 <= x < n for x, n in zip(q, self.dims)):
            return None
        v = self.a[tuple(int(x) for x in q[::-1])]
        if self.type[0] == "str":
            return untoken(bytes(v).decode("latin1"))
        return v.item() if self.type[0] == "int" else float(v)


class AttrData:
    def __init__(self, ty, dims, vals):
        self.kind, self.type, self.dims, self.vals = "attr", ty, dims, vals


# ---------------------------------------------------------------- symbolic
def sym_files(hdf, pre):
    from . import fakehdf
    for fn, objs in pre:
        f = hdf.files[fn] = fakehdf.File()
        for o in objs:
            kind, path = o[0], o[1]
            ps = [p for p in path.split("/") if p]
            g = f.root
            for p in ps[:-1]:
                g = g.m.setdefault(p, fakehdf.Group()) if not isinstance(g, fakehdf.Dataset) and kind != "attr" else g.m[p]
            if kind == "group":
                g.m.setdefault(ps[-1], fakehdf.Group())
            elif kind == "dset":
                c, n = tinfo(o[2])
                dims = list(o[3])
                opt = o[4] if len(o) > 4 else {}
                mx = [-1] * len(dims) if opt.get("unlimited") else dims
                g.m[ps[-1]] = fakehdf.Dataset((c, n, "|" if c in ("str", "compound") else "<"), dims, mx,
                                              [2] * len(dims) if opt.get("unlimited") else None, injective)
            else:
                c, n = tinfo(o[2])
                g.attrs[ps[-1]] = fakehdf.Attr((c, n, "|" if c == "str" else "<"), list(o[3] or []), list(o[4]))


def sym_contents(hdf, names):
    from . import fakehdf
    out = {}
    for fn in names:
        f = hdf.files.get(fn)
        if f is None:
            continue
        c = out[fn] = {}

        def walk(g, path):
            for n, a in g.attrs.items():
                c[path + "@" + n] = AttrData(a.ty[:2], list(a.dims), list(a.data))
            if isinstance(g, fakehdf.Dataset):
                c[path] = SymData(g)
            else:
                c[path] = "group"
                for n, o in g.m.items():
                    walk(o, path + "/" + n)
        walk(f.root, "")
    return out


def sym_run(pre, ops, dump, verbosity=0):
    from . import fortran as F, fakehdf
    hdf = fakehdf.Hdf()
    sym_files(hdf, pre)
    m = F.Machine(hdf)
    m.glob["hdf_verbosity"].set(verbosity)
    hs = {}
    res = []

    def handle(h):
        if isinstance(h, str):
            return hs.setdefault(h, F.Cell(F.Ty("i", 4)))
        return F.Cell(F.Ty("i", 4), h)

    def text(s):
        return F.Cell(F.Ty("c", len(s)), s)

    def buffer(t, dims, vals):
        ty = F.Ty(t[0], int(t[1:]))
        if dims is None:
            c = F.Cell(ty)
            c.v = vals[0]
            return c
        return F.FArr(ty, [1] * len(dims), dims, list(vals))

    def ints(v):
        return F.FArr(F.Ty("i", 4), [1], [len(v)], list(v))

    def options(o):
        kw = {}
        for k, v in o.items():
            if v is None:
                continue
            if isinstance(v, (list, tuple)):
                kw[k] = ints(v)
            elif k in ("overwrite", "szip", "extensible", "readonly"):
                kw[k] = F.Cell(F.Ty("l", 4), v)
            else:
                kw[k] = F.Cell(F.Ty("i", 4), v)
        return kw
    status = "done"
    try:
        for op in ops:
            k = op[0]
            r = None
            if k == "create":
                m.call("hdf5_create_file", [handle(op[1]), text(op[2])])
            elif k == "open":
                m.call("hdf5_open_file", [handle(op[1]), text(op[2])], options({"readonly": op[3]}))
            elif k == "close":
                m.call("hdf5_close_file", [handle(op[1])])
            elif k in ("write", "wattr"):
                b = buffer(op[3], op[4], op[5])
                m.call("hdf5_write_data" if k == "write" else "hdf5_write_attribute",
                       [handle(op[1]), text(op[2]), b], options(op[6]))
            elif k in ("read", "rattr"):
                n = 1
                for x in op[4] or []:
                    n *= x
                b = buffer(op[3], op[4], [SENT] * n)
                m.call("hdf5_read_data" if k == "read" else "hdf5_read_attribute",
                       [handle(op[1]), text(op[2]), b], options(op[5]) if k == "read" else {})
                r = list(b.data) if F.isarr(b) else [b.v]
            elif k == "dims":
                rank = F.Cell(F.Ty("i", 4))
                d = F.FArr(F.Ty("i", 4), [1], [8], [SENT] * 8)
                m.call("hdf5_get_dimensions", [handle(op[1]), text(op[2]), rank, d])
                n = F.concrete(rank.get())
                r = (n, d.data[:n])
            elif k == "type":
                t = F.Cell(F.Ty("c", 30))
                s = F.Cell(F.Ty("i", 4))
                m.call("hdf5_get_type", [handle(op[1]), text(op[2]), t, s])
                r = (t.get().rstrip(" "), s.get())
            elif k == "group":
                m.call("hdf5_create_group", [handle(op[1]), text(op[2])])
            elif k == "list":
                n = F.Cell(F.Ty("i", 4))
                a = F.FArr(F.Ty("c", 30), [1], [8], [" " * 30] * 8)
                args = [handle(op[2]), text(op[3]), n]
                if len(op) < 5 or op[4]:
                    args.append(a)
                m.call("hdf5_list_" + op[1], args)
                n = F.concrete(n.get())
                r = (n, sorted(x.rstrip(" ") for x in a.data[:n]) if len(args) > 3 else None)
            elif k == "handle":
                r = handle(op[1]).get()
            elif k == "auto":
                r = hdf.auto
            else:
                raise ValueError(k)
            res.append(r)
    except F.Stop:
        status = "abort"
    except F.OutOfBounds as x:
        status = "crash"
        res.append(str(x))
    except LookupError as x:
        status = "compile"
        res.append(str(x))
    return status, res, sym_contents(hdf, dump) if status != "crash" else {}


# -------------------------------------------------------------------- real
FT = {"i": "integer*%d", "r": "real*%d", "c": "character(len=%d)"}


def ftype(t):
    return FT[t[0]] % int(t[1:])


def flit(t, v):
    k = int(t[1:])
    if t[0] == "i":
        if v == -(1 << (8 * k - 1)):
            return "(%d_%d-1_%d)" % (v + 1, k, k)
        return "%d_%d" % (v, k)
    if t[0] == "r":
        return "real(%d_8,kind=%d)" % (v, k)
    return '"%s"' % token(v, k).ljust(k)


def real_source(ops):
    L = []
    hs = []

    def H(h):
        if isinstance(h, str):
            if h not in hs:
                hs.append(h)
            return h
        return "%d" % h

    def opts(o):
        s = ""
        for k, v in o.items():
            if v is None:
                continue
            if isinstance(v, (list, tuple)):
                s += ", %s=(/ %s /)" % (k, ", ".join("%d" % x for x in v)) if len(v) else \
                    ", %s=(/ integer :: /)" % k
            elif isinstance(v, bool):
                s += ", %s=%s" % (k, ".true." if v else ".false.")
            else:
                s += ", %s=%d" % (k, v)
        return s.replace(", ", ", &\n    ")
    for i, op in enumerate(ops):
        k = op[0]
        L.append("block")
        if k == "create":
            L.append('call hdf5_create_file(%s, "%s")' % (H(op[1]), op[2]))
        elif k == "open":
            L.append('call hdf5_open_file(%s, "%s"%s)' % (H(op[1]), op[2], opts({"readonly": op[3]})))
        elif k == "close":
            L.append("call hdf5_close_file(%s)" % H(op[1]))
        elif k in ("write", "wattr", "read", "rattr"):
            t, dims = op[3], op[4]
            d = "" if dims is None else "(%s)" % ",".join("%d" % x for x in dims)
            n = 1
            for x in dims or []:
                n *= x
            L += ["type tt", "sequence", "integer*8 :: g1(64)", "%s :: a%s" % (ftype(t), d), "integer*8 :: g2(64)",
                  "end type", "type(tt) :: t", "%s, allocatable :: v(:)" % ftype(t), "integer :: j", "t%g1 = 1234567", "t%g2 = 1234567",
                  "allocate(v(%d))" % n]
            vals = op[5] if k in ("write", "wattr") else [SENT] * n
            for j, v in enumerate(vals):
                L.append("v(%d) = %s" % (j + 1, flit(t, v)))
            L.append("t%a = v(1)" if dims is None else "t%%a = reshape(v, (/ %s /))" % ", ".join("%d" % x for x in dims))
            fn = {"write": "hdf5_write_data", "wattr": "hdf5_write_attribute", "read": "hdf5_read_data",
                  "rattr": "hdf5_read_attribute"}[k]
            o = op[6] if k in ("write", "wattr") else op[5] if k == "read" else {}
            L.append('call %s(%s, "%s", t%%a%s)' % (fn, H(op[1]), op[2], opts(o)))
            L.append('if(any(t%g1.ne.1234567).or.any(t%g2.ne.1234567))write(*,*)"GUARD"')
            if k in ("read", "rattr"):
                L.append("v(1) = t%%a" if dims is None else "v = reshape(t%%a, (/ %d /))" % n)
                L[-1] = L[-1].replace("%%", "%")
                f = "'(\"V %d \",a,\"]\")'" % i if t[0] == "c" else "'(\"V %d \",%s)'" % (i, "i0" if t[0] == "i" else "es25.16e3")
                L += ["do j = 1, size(v)", "write(*,%s) v(j)" % f, "end do"]
        elif k == "dims":
            L += ["integer :: rank, d(8), j", "d = %d" % SENT, 'call hdf5_get_dimensions(%s, "%s", rank, d)' % (H(op[1]), op[2]),
                  "write(*,'(\"V %d \",i0)') rank" % i, "do j = 1, rank", "write(*,'(\"V %d \",i0)') d(j)" % i, "end do"]
        elif k == "type":
            L += ["character(len=30) :: t", "integer :: s", 'call hdf5_get_type(%s, "%s", t, s)' % (H(op[1]), op[2]),
                  "write(*,'(\"V %d \",a,\"]\")') t" % i, "write(*,'(\"V %d \",i0)') s" % i]
        elif k == "group":
            L.append('call hdf5_create_group(%s, "%s")' % (H(op[1]), op[2]))
        elif k == "list":
            names = len(op) < 5 or op[4]
            L += ["character(len=30) :: a(8)", "integer :: n, j", 'call hdf5_list_%s(%s, "%s", n%s)' % (
                op[1], H(op[2]), op[3], ", a" if names else ""), "write(*,'(\"V %d \",i0)') n" % i]
            if names:
                L += ["do j = 1, n", "write(*,'(\"V %d \",a,\"]\")') a(j)" % i, "end do"]
        elif k == "handle":
            L.append("write(*,'(\"V %d \",i0)') %s" % (i, H(op[1])))
        elif k == "auto":
            pass
        L.append("write(*,'(\"OK %d\")')" % i)
        L.append("end block")
    L.append('write(*,*)"FINISHED"')
    return "\n".join(["program drv", "use hdf5_wrapper", "implicit none"] +
                     ["integer :: " + h for h in hs] + ["open(unit=6, encoding='default')"] * 0 +
                     ["hdf_verbosity = VERB"] + L + ["end program drv", ""])


def build_library(base):
    from . import fortran as F
    import fcntl
    d = os.path.join(base, "fwrap-" + F.source_hash())
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "done")):
            src = F.source_dir()
            with open(os.path.join(d, "FC.h"), "w") as f:
                f.write("#define FC_GLOBAL_(name,NAME) name##_\n")
            subprocess.run(["gfortran"] + FLAGS + ["-I" + src, "-c", os.path.join(src, "hdf5_wrapper.F90"), "-o", "w.o"],
                           cwd=d, check=True)
            subprocess.run(["gcc", "-w", "-g", "-I.", "-I/usr/include/hdf5/serial", "-c"] +
                           [os.path.join(src, x) for x in sorted(os.listdir(src)) if x.endswith(".c")], cwd=d, check=True)
            open(os.path.join(d, "done"), "w").close()
    return d


def real_files(tmp, pre):
    import h5py
    import numpy as np
    for fn, objs in pre:
        with h5py.File(os.path.join(tmp, fn), "w") as f:
            for o in objs:
                kind, path = o[0], o[1]
                if kind == "group":
                    f.require_group(path)
                    continue
                c, n = tinfo(o[2])
                dt = {"int": "<i%d", "float": "<f%d", "str": "S%d", "compound": "S%d"}[c] % n
                if c == "compound":
                    dt = np.dtype([("a", "<i4")])
                if kind == "dset":
                    opt = o[4] if len(o) > 4 else {}
                    dims = [int(x) for x in o[3]]
                    a = np.zeros(dims[::-1], dtype=dt)
                    if c != "compound":
                        for q in np.ndindex(*dims):
                            v = injective(q)
                            a[tuple(q[::-1])] = token(v, n).encode() if c == "str" else v
                    kw = dict(maxshape=[None] * len(dims), chunks=(2,) * len(dims)) if opt.get("unlimited") else {}
                    f.create_dataset(path, data=a, dtype=dt, **kw)
                else:
                    p, _, an = path.rpartition("/")
                    vals = [token(int(v), n).encode() if c == "str" else int(v) for v in o[4]]
                    a = np.array(vals, dtype=dt)
                    f[p or "/"].attrs.create(an, a[0] if o[3] is None else a.reshape([int(x) for x in o[3]][::-1]),
                                             dtype=dt)


def real_contents(tmp, names):
    import h5py
    import numpy as np
    out = {}

    def attrs(o, path, c):
        for n in o.attrs:
            a = o.attrs.get_id(n)
            v = np.empty(a.shape, a.dtype)
            v = o.attrs[n]
            dt = np.dtype(a.dtype)
            k = {"i": "int", "f": "float", "S": "str"}.get(dt.kind, "compound")
            v = np.asarray(v).reshape(-1).tolist()
            if k == "str":
                v = [untoken(x.decode("latin1") if isinstance(x, bytes) else str(x)) for x in v]
            c[path + "@" + n] = AttrData((k, dt.itemsize), [int(x) for x in a.shape[::-1]], v)
    for fn in names:
        p = os.path.join(tmp, fn)
        if not os.path.exists(p):
            continue
        c = out[fn] = {}
        try:
            f = h5py.File(p, "r")
        except OSError:
            continue
        with f:
            c[""] = "group"
            attrs(f, "", c)

            def visit(name, o):
                c["/" + name] = RealData(o) if isinstance(o, h5py.Dataset) else "group"
                attrs(o, "/" + name, c)
            f.visititems(visit)
    return out


def real_run(tmp, pre, ops, dump, verbosity=0):
    lib = build_library(os.path.dirname(os.path.dirname(tmp)))
    real_files(tmp, pre)
    with open(os.path.join(tmp, "drv.f90"), "w") as f:
        f.write(real_source(ops).replace("VERB", "%d" % verbosity))
    r = subprocess.run(["gfortran"] + FLAGS + ["-ffree-line-length-none", "-I" + lib, "drv.f90"] +
                       [os.path.join(lib, x) for x in sorted(os.listdir(lib)) if x.endswith(".o")] + LIBS + ["-o", "drv"],
                       cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return "compile", [r.stdout.decode("latin1")[-600:]], {}
    p = subprocess.run([os.path.join(tmp, "drv")], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30,
                       env=dict(os.environ, HDF5_USE_FILE_LOCKING="FALSE"))
    out = p.stdout.decode("latin1")
    got = {}
    ok = 0
    for l in out.split("\n"):
        w = l.split(" ", 2)
        if w[0] == "V":
            got.setdefault(int(w[1]), []).append(w[2])
        elif w[0] == "OK":
            ok += 1
    res = []
    for i, op in enumerate(ops[:ok]):
        g = got.get(i, [])
        if op[0] in ("read", "rattr"):
            if op[3][0] == "c":
                res.append([untoken(x[:x.rindex("]")]) for x in g])
            elif op[3][0] == "i":
                res.append([int(x) for x in g])
            else:
                res.append([float(x) for x in g])
        elif op[0] == "dims":
            res.append((int(g[0]), [int(x) for x in g[1:]]))
        elif op[0] == "type":
            res.append((g[0][:g[0].rindex("]")].rstrip(), int(g[1])))
        elif op[0] == "list":
            res.append((int(g[0]), sorted(x[:x.rindex("]")].rstrip() for x in g[1:]) if len(op) < 5 or op[4] else None))
        elif op[0] == "handle":
            res.append(int(g[0]))
        else:
            res.append(None)
    if "GUARD" in out or p.returncode < 0 or (p.returncode and "Fortran runtime error" in p.stderr.decode("latin1")):
        return "crash", res + [p.stderr.decode("latin1")[-300:]], {}
    if "FINISHED" in out:
        status = "done"
    elif "***Abort HDF5" in out:
        status = "abort"
    else:
        return "crash", res + [out[-300:] + p.stderr.decode("latin1")[-300:]], {}
    return status, res, real_contents(tmp, dump)


def run(env, pre, ops, dump=(), verbosity=0):
    if env.sym:
        return sym_run(pre, ops, dump, verbosity)
    ops = [tuple(_plain(x) for x in op) for op in ops]
    return real_run(env.tmp, pre, ops, dump, verbosity)


def _plain(x):
    if isinstance(x, dict):
        return {k: _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    return x
