"""Property harness framework.

A harness (class H) describes, for one case, the symbolic inputs, what each
MPI rank does with the real code, and the oracle.  The same harness text runs

  * symbolically: inputs are z3 variables, repository modules are the current
    /repo sources executed over vsym's numpy/MPI/HDF5/file stand-ins, oracle
    conditions are discharged by the solver;
  * for real: inputs are the integers of a solver model, repository modules
    are imported normally and run with the real numpy / h5py / mpirun.
"""
import importlib
import os
import sys

import numpy as np

from . import core, loader, sarr, scalars, fakempi
from .core import Found, Inconclusive, PathAbort
from .scalars import SBool, SInt, SReal, is_sym, sand, sor, snot, scalar_eq


# ------------------------------------------------------------- variables
class Vars:
    """Source of input values."""
    sym = False

    def int(self, name, lo, hi, dt=None):
        raise NotImplementedError

    def ints(self, name, n, dt, lo=None, hi=None):
        if lo is None or hi is None:
            m, M = scalars.int_range(dt)
            lo = m if lo is None else lo
            hi = M if hi is None else hi
        return [self.int("%s[%d]" % (name, i), lo, hi, dt) for i in range(n)]


class SymVars(Vars):
    sym = True

    def __init__(self, e):
        self.e = e

    def int(self, name, lo, hi, dt=None):
        t = self.e.new_var(name, "int")
        if lo == hi:
            self.assume(t == lo)
            return lo if dt is None else np.dtype(dt).type(lo)
        self.e.assume(core.z3.And(t >= lo, t <= hi))
        return SInt(t, lo, hi, dt)

    def choice(self, name, n):
        """A concrete value 0..n-1; every one is explored."""
        t = self.e.new_var(name, "int")
        self.e.assume(core.z3.And(t >= 0, t < n))
        return self.e.concretize(t)

    def bool(self, name):
        return SBool(self.e.new_var(name, "bool"))

    def bits(self, name, n, dt=None):
        b = [self.e.new_var("%s.%d" % (name, i), "bool") for i in range(n)]
        if dt is not None and n == 8 * np.dtype(dt).itemsize:
            return scalars.from_tc(b, dt)
        return scalars.from_bits(b, dt)

    def assume(self, c):
        if is_sym(c):
            c = c.t
        elif not hasattr(c, "sexpr"):
            c = bool(c)
        self.e.assume(c)

    def real(self, name, dt=np.float64, lo=None, hi=None):
        t = self.e.new_var(name, "real")
        if lo is not None:
            self.e.assume(t >= lo)
        if hi is not None:
            self.e.assume(t <= hi)
        return SReal(t, dt)


class RealVars(Vars):
    def __init__(self, vals):
        self.vals = vals

    def int(self, name, lo, hi, dt=None):
        v = self.vals.get(name, lo if lo > 0 or hi < 0 else 0)
        return int(v) if dt is None else np.dtype(dt).type(v)

    def choice(self, name, n):
        return int(self.vals.get(name, 0))

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def bits(self, name, n, dt=None):
        v = sum(1 << i for i in range(n) if self.vals.get("%s.%d" % (name, i)))
        if dt is None:
            return v
        dt = np.dtype(dt)
        return np.array(v, dtype="u%d" % dt.itemsize).view(dt)[()]

    def assume(self, c):
        pass

    def real(self, name, dt=np.float64, lo=None, hi=None):
        v = self.vals.get(name, lo or 0)
        if isinstance(v, list):
            v = v[0] / v[1]
        return float(v) if dt is None else np.dtype(dt).type(v)


# ------------------------------------------------------------- environments
class SymEnv:
    sym = True
    np = sarr.NP

    def __init__(self, ld):
        self.ld = ld

    def load(self, name):
        return self.ld.load(name)

    # --- files
    def path(self, name):
        return "/fs/" + name

    def write_bin(self, name, parts):
        """parts: list of bytes or (dtype, values)."""
        from . import fakeio
        d = []
        for p in parts:
            if isinstance(p, (bytes, bytearray)):
                d += list(p)
            else:
                for x in p[1]:
                    d += fakeio.elem_bytes(sarr.raw(x), np.dtype(p[0]))
        self.ld.fs.files[self.ld.fs.norm(self.path(name))] = fakeio.BinFile(d)

    def write_text(self, name, s):
        self.write_bin(name, [s.encode()])

    def truncate(self, name, n):
        del self.ld.fs.files[self.ld.fs.norm(self.path(name))].data[n:]

    def extend(self, name, n):
        self.ld.fs.files[self.ld.fs.norm(self.path(name))].data.extend([0] * n)

    def digest(self, kind, parts):
        from . import fakeio
        b = []
        for p in parts:
            b += list(p) if isinstance(p, bytes) else [
                y for x in p[1] for y in fakeio.elem_bytes(sarr.raw(x), np.dtype(p[0]))]
        return fakeio.Digest(kind, b)

    def same_digest(self, a, b):
        return hasattr(a, "same") and a.same(b)

    def open_files(self):
        return self.ld.fs.nopen

    def file_size(self, name):
        return len(self.ld.fs.files[self.ld.fs.norm(self.path(name))].data)

    def parse_bin(self, name, parts):
        """Values stored in a file: parts is a list of (dtype, count)."""
        from . import fakeio
        d = self.ld.fs.files[self.ld.fs.norm(self.path(name))].data
        out, o = [], 0
        for dt, n in parts:
            dt = np.dtype(dt)
            b = d[o:o + n * dt.itemsize]
            o += n * dt.itemsize
            out.append([sarr.typed(fakeio.decode(b[i * dt.itemsize:(i + 1) * dt.itemsize], dt), dt)
                        for i in range(n)] if len(b) == n * dt.itemsize else None)
        return out

    def parse_rows(self, name, cols, n):
        """n rows of packed columns [(name, dtype)]: list of lists of values."""
        from . import fakeio
        d = self.ld.fs.files[self.ld.fs.norm(self.path(name))].data
        out, o = [], 0
        for i in range(n):
            row = []
            for _, dt in cols:
                dt = np.dtype(dt)
                if o + dt.itemsize > len(d):
                    return out
                row.append(sarr.typed(fakeio.decode(d[o:o + dt.itemsize], dt), dt))
                o += dt.itemsize
            out.append(row)
        return out

    def read_text(self, name):
        d = self.ld.fs.files[self.ld.fs.norm(self.path(name))].data
        return bytes(d).decode()

    def exists(self, name):
        return self.ld.fs.norm(self.path(name)) in self.ld.fs.files

    def script(self, path, name, globs):
        """Run a script of the repository as module name, with these extra globals."""
        return self.ld.script(path, name, globs)

    def open(self, *a, **k):
        return self.ld.fs.open(*a, **k)

    def add_blob(self, name, size, unreadable=False):
        """File of opaque contents (unreadable: opening it fails)."""
        from . import fakeio
        self.ld.fs.files[self.ld.fs.norm(self.path(name))] = fakeio.BlobFile(name, size, unreadable)

    def add_dir(self, name):
        self.ld.fs.dirs.add(self.ld.fs.norm(self.path(name)))

    def blob_hash_ok(self, tok, kind, name):
        from . import fakeio
        return fakeio.token_ok(tok, kind, self.ld.fs.files[self.ld.fs.norm(self.path(name))])

    def mod(self, name):
        """h5py etc. as the repository sees them."""
        return self.ld._import(name, fromlist=("x",))

    def arr(self, elems, dt, shape=None):
        a = sarr.asarr(list(elems), np.dtype(dt)) if len(elems) else sarr.empty((0,), np.dtype(dt))
        if shape is not None:
            a = a.reshape(shape)
        return a


class RealEnv:
    sym = False
    np = np

    def __init__(self, tmp=None):
        self.tmp = tmp

    # --- files
    def path(self, name):
        return os.path.join(self.tmp, name)

    def write_bin(self, name, parts):
        os.makedirs(os.path.dirname(self.path(name)), exist_ok=True)
        with open(self.path(name), "wb") as f:
            for p in parts:
                if isinstance(p, (bytes, bytearray)):
                    f.write(p)
                else:
                    for x in p[1]:
                        f.write(np.asarray(x).astype(np.dtype(p[0])).tobytes())

    def write_text(self, name, s):
        self.write_bin(name, [s.encode()])

    def truncate(self, name, n):
        os.truncate(self.path(name), n)

    def extend(self, name, n):
        with open(self.path(name), "ab") as f:
            f.write(bytes(n))

    def digest(self, kind, parts):
        import hashlib
        h = hashlib.new(kind)
        for p in parts:
            h.update(p if isinstance(p, bytes) else b"".join(np.asarray(x).astype(np.dtype(p[0])).tobytes() for x in p[1]))
        return h.hexdigest()

    def same_digest(self, a, b):
        return a == b

    def open_files(self):
        n = set()           # (a mapped file has a second descriptor)
        for f in os.listdir("/proc/self/fd"):
            try:
                n.add(os.readlink("/proc/self/fd/" + f))
            except OSError:
                pass
        return len([x for x in n if x.startswith(self.tmp)])

    def file_size(self, name):
        return os.stat(self.path(name)).st_size

    def parse_bin(self, name, parts):
        with open(self.path(name), "rb") as f:
            d = f.read()
        out, o = [], 0
        for dt, n in parts:
            dt = np.dtype(dt)
            b = d[o:o + n * dt.itemsize]
            o += n * dt.itemsize
            out.append(list(np.frombuffer(b, dtype=dt)) if len(b) == n * dt.itemsize else None)
        return out

    def parse_rows(self, name, cols, n):
        with open(self.path(name), "rb") as f:
            d = f.read()
        dt = np.dtype(cols)
        return [list(x) for x in np.frombuffer(d, dt, count=min(n, len(d) // dt.itemsize))]

    def read_text(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def load(self, name):
        return importlib.import_module(name)

    def script(self, path, name, globs):
        import types
        p = os.path.join(loader.REPO, path)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__.update(globs)
        with open(p) as f:
            exec(compile(f.read(), p, "exec"), m.__dict__)
        return m

    open = staticmethod(open)

    def blob(self, name, size):
        import zlib
        return np.random.default_rng(zlib.crc32(name.encode())).bytes(int(size))

    def add_blob(self, name, size, unreadable=False):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if unreadable:
            os.symlink("/nonexistent/file", p)
            return
        with open(p, "wb") as f:
            f.write(self.blob(name, size))

    def add_dir(self, name):
        os.makedirs(self.path(name), exist_ok=True)

    def blob_hash_ok(self, tok, kind, name):
        import hashlib
        with open(self.path(name), "rb") as f:
            return tok == hashlib.new(kind, f.read()).hexdigest()

    def mod(self, name):
        return importlib.import_module(name)

    def arr(self, elems, dt, shape=None):
        a = np.array(list(elems), dtype=np.dtype(dt)) if len(elems) else np.empty((0,), np.dtype(dt))
        if shape is not None:
            a = a.reshape(shape)
        return a


# ------------------------------------------------------------- checking
class RealFail(Exception):
    pass


class Chk:
    """Oracle conditions.  Symbolic: solver.  Real: plain truth."""

    def __init__(self, e=None):
        self.e = e

    def that(self, c, msg):
        if self.e is not None:
            self.e.check(c, msg)
        elif not bool(c):
            raise RealFail(msg)

    def fail(self, msg):
        self.that(False, msg)

    def eq(self, a, b, msg):
        if is_sym(a) or is_sym(b) or isinstance(a, tuple) or isinstance(b, tuple):
            self.that(scalar_eq(a, b), msg)
        else:
            ok = a == b
            if not bool(ok):
                self.that(False, "%s (%r != %r)" % (msg, a, b))

    def eqlist(self, a, b, msg):
        if len(a) != len(b):
            self.that(False, "%s: length %d, expected %d" % (msg, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            if x is not y:
                self.eq(x, y, "%s [element %d]" % (msg, i))

    def arr(self, a, elems, msg, dt=None, shape=None):
        """a is an array holding exactly these elements (C order)."""
        if not is_array(a):
            self.fail("%s: not an array but %s" % (msg, type(a).__name__))
        if shape is not None and tuple(int(x) for x in a.shape) != tuple(shape):
            self.fail("%s: shape %s, expected %s" % (msg, tuple(a.shape), tuple(shape)))
        if dt is not None and np.dtype(a.dtype) != np.dtype(dt):
            self.fail("%s: dtype %s, expected %s" % (msg, a.dtype, np.dtype(dt)))
        self.eqlist(els(a), list(elems), msg)


def is_array(a):
    return hasattr(a, "_is_sarr") or isinstance(a, np.ndarray)


def els(a):
    """Flat C-order list of the elements of an array (either kind)."""
    if hasattr(a, "_is_sarr"):
        return a.elems()
    if isinstance(a, np.ndarray):
        if a.dtype.names:
            return [tuple(x) for x in a.reshape(-1).tolist()]
        return a.reshape(-1).tolist() if a.dtype.kind not in "V" else [bytes(x) for x in a.reshape(-1)]
    return list(a)


def shp(a):
    return tuple(int(x) for x in a.shape)


class H:
    """Base class of harnesses; one instance per case."""
    mpi = True
    modules = ()
    time_limit = None
    strict_send = True

    def __init__(self, case):
        self.case = case
        for k, v in case.items():
            setattr(self, k, v)

    P = 1

    def inputs(self, v):
        return {}

    def fs(self, v):
        """Optional fake file system shared by all ranks (symbolic mode)."""
        if getattr(self, "needs_files", False):
            from . import fakeio
            return fakeio.FS(h5version=tuple(self.h5v)) if self.h5v else fakeio.FS()
        return None

    # version of the HDF5 library h5py reports (None: the installed one)
    h5v = None

    def overrides(self):
        return {}

    def sched(self, v):
        """Optional: what message probes see, sched(number of the probe, sources with a message, must) -> source."""
        return None

    def setup_files(self, env, inp):
        """Create input files; run once (rank 0) before the ranks start."""

    def rank(self, env, comm, r, inp):
        raise NotImplementedError

    def oracle(self, chk, inp, outs):
        raise NotImplementedError

    # ranks of the job which are not in the communicator passed to rank() (whose ranks are the others in
    # reverse order); 0: the communicator is COMM_WORLD
    idle = 0

    def world_size(self):
        return self.P + self.idle

    def on_comm(self, comm, run):
        """Call run(comm, rank) on the communicator of this harness -> (rank or None, result)."""
        if not self.idle:
            r = comm.Get_rank() if comm is not None else 0
            return r, run(comm, r)
        w = comm.Get_rank()
        c = comm.Split(1 if w >= self.idle else 0, -w)
        if w < self.idle:
            return None, None
        r = c.Get_rank()
        return r, run(c, r)

    def on_outcome(self, chk, inp, o):
        """Turn a run outcome into oracle checks."""
        if o[0] == "ok":
            return self.oracle(chk, inp, o[1])
        if o[0] == "deadlock":
            return chk.fail("deadlock: " + str(o[1]))
        return chk.fail("rank %s raised %s: %s" % (o[1], type(o[2]).__name__, str(o[2])[:200]))


def normalise(x):
    """Results of a real run, made picklable."""
    if isinstance(x, np.ndarray):
        return np.array(x) if type(x) is not np.ndarray else x
    if isinstance(x, dict):
        return {k: normalise(v) for k, v in x.items()}
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(normalise(v) for v in x)
    if isinstance(x, list):
        return [normalise(v) for v in x]
    return x


# ------------------------------------------------------------- symbolic run
def sym_path(h, e):
    """Run one path of harness h under engine e."""
    v = SymVars(e)
    inp = h.inputs(v)
    fs = h.fs(v)
    chk = Chk(e)
    ov = h.overrides()
    if fs is not None or hasattr(h, "needs_files"):
        h.setup_files(SymEnv(loader.Loader(ov, fs)), inp)
    w = fakempi.World(h.world_size())
    w.sched = h.sched(v)

    def rank(comm, r):
        ld = loader.Loader(ov, fs)
        if not h.mpi:
            comm = None
        return h.on_comm(comm, lambda c, r: h.rank(SymEnv(ld), c, r, inp))
    o = w.run(rank)
    if o[0] == "ok":
        o = ("ok", [x[1] for x in sorted([x for x in o[1] if x[0] is not None], key=lambda x: x[0])])
    if o[0] == "exc" and isinstance(o[2], AttributeError) and "vsym" in repr(o[2]):
        raise Inconclusive(repr(o[2]))
    h.on_outcome(chk, inp, o)
    return o


HANG_CPU = float(os.environ.get("VERIF_HANG", "45"))


def watch(e, hung):
    """Call hung() if the path being run uses HANG_CPU seconds of processor time without asking the solver anything."""
    import threading
    import time

    def loop():
        last, cpu = None, 0
        while not getattr(e, "finished", False):
            time.sleep(2)
            st = e.stats
            now = (st["paths"], st["aborted"], st["decisions"], st["queries"], st["concretized"], len(e.vars), e.pos)
            if e.busy or now != last:
                last, cpu = now, time.process_time()
            elif time.process_time() - cpu > HANG_CPU:
                hung()
    threading.Thread(target=loop, daemon=True).start()


def run_case(H_cls, case, deadline=None, max_paths=None, nsamples=2, finish=None):
    """Explore one case completely.  Returns a result dict."""
    import random
    import time
    t0 = time.time()
    h = H_cls(case)
    e = core.Engine()
    core.set_engine(e)
    e.deadline = deadline
    samples = []
    nsat = [0]
    rng = random.Random(repr(sorted(case.items(), key=str)))
    res = dict(case=case.get("name"), status="ok", msg=None, values=None)
    loader.start_monitor()

    def on_path(e):
        # reachability witness: the path condition has a model after the oracle
        k = e.stats["paths"]
        if len(samples) < nsamples:
            samples.append(e.current_values())
        elif k > 3 and rng.random() < nsamples / (k + 1.0):
            samples[rng.randrange(nsamples)] = e.current_values()
        nsat[0] += 1

    def done():
        e.finished = True
        res["samples"] = samples
        res["stats"] = e.stats
        res["witness"] = nsat[0]
        res["notes"] = sorted(e.notes)
        res["funcs"] = sorted(loader.FUNCS)
        res["cover"] = {k: sorted(v) for k, v in loader.COVER.items()}
        res["wall"] = time.time() - t0

    def hung():
        res.update(status="found", msg="deadlock: endless loop", values=e.current_values())
        done()
        finish(res)
    if finish is not None:
        watch(e, hung)
    try:
        f = e.explore(lambda: sym_path(h, e), on_path, max_paths)
        if f is not None:
            res.update(status="found", msg=f.msg, values=f.values)
    except Inconclusive as x:
        if str(x) in ("time limit", "path limit"):
            res.update(status="incomplete", msg=str(x))
        else:
            res.update(status="inconclusive", msg=str(x))
            try:
                res["values"] = e.current_values()
            except BaseException:       # noqa
                pass
    except RecursionError as x:
        res.update(status="inconclusive", msg="recursion: %s" % x)
    except MemoryError as x:
        res.update(status="inconclusive", msg="out of memory")
    except Exception as x:      # harness failure
        import traceback
        res.update(status="error", msg=traceback.format_exc()[-1500:])
        try:
            res["values"] = e.current_values()
        except BaseException:       # noqa
            pass
    done()
    return res
