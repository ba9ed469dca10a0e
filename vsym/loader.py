"""Executes the current /repo sources with symbolic stand-ins for numpy, MPI,
HDF5 and file access.  Nothing in the source is rewritten."""
import builtins
import importlib
import os
import sys
import types
import warnings

import numpy as np

from . import core, sarr, fakempi
from .scalars import SBool, SInt, SReal, is_sym, smax, smin, trunc_real

REPO = os.environ.get("VERIF_REPO", "/repo")
PYROOT = os.path.join(REPO, "python")

_code_cache = {}
COVER = {}        # filename -> set of lines executed
FUNCS = set()     # qualified names executed


def _code(path):
    c = _code_cache.get(path)
    if c is None:
        with open(path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = compile(src, path, "exec")
        _code_cache[path] = c
    return c


def _rel(path):
    """Name of a repository file in reports (None: not one)."""
    if path.startswith(PYROOT + os.sep):
        return os.path.relpath(path, PYROOT)
    if path.startswith(REPO + os.sep):
        return os.path.relpath(path, REPO)
    return None


def start_monitor():
    """Record which functions/lines of the repository get executed."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "vsym")
    except ValueError:
        return
    ev = mon.events

    def on_start(code, off):
        n = _rel(code.co_filename)
        if n is not None:
            FUNCS.add(n + ":" + code.co_qualname)
        return mon.DISABLE

    def on_line(code, line):
        n = _rel(code.co_filename)
        if n is not None:
            COVER.setdefault(n, set()).add(line)
        return mon.DISABLE
    mon.register_callback(4, ev.PY_START, on_start)
    mon.register_callback(4, ev.LINE, on_line)
    mon.set_events(4, ev.PY_START | ev.LINE)


# ------------------------------------------------------------ builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SInt) and x.dt is None)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SInt):
                return SInt(x.t, x.lo, x.hi, None, x.bits, x.tc)
            if isinstance(x, SBool):
                return x.as_int()
            if isinstance(x, SReal):
                return trunc_real(x)
            if hasattr(x, "_is_sarr"):
                return cls(x._scalar0())
        return int(*a, **k)


class sint(metaclass=_IntMeta):
    dtype = np.dtype(int)
    from_bytes = staticmethod(int.from_bytes)
    bit_length = int.bit_length
    __name__ = "int"


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SReal):
                return SReal(x.t, None)
            if isinstance(x, SInt):
                from .scalars import cast_scalar
                r = cast_scalar(x, np.dtype(float))
                return SReal(r.t, None) if isinstance(r, SReal) else r
            if hasattr(x, "_is_sarr"):
                return cls(x._scalar0())
        return float(*a, **k)


class sfloat(metaclass=_FloatMeta):
    dtype = np.dtype(float)
    fromhex = staticmethod(float.fromhex)
    __name__ = "float"


def s_isinstance(x, cls):
    if is_sym(x):
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if isinstance(c, tuple):
                if s_isinstance(x, c):
                    return True
                continue
            if isinstance(x, SInt):
                if x.dt is None and c in (int, sint):
                    return True
                if x.dt is not None and isinstance(c, type) and issubclass(x.dt.type, c):
                    return True
            elif isinstance(x, SBool):
                if c in (bool, np.bool_):
                    return True
            elif isinstance(x, SReal):
                if c in (float, sfloat) or (x.dt is not None and isinstance(c, type) and issubclass(x.dt.type, c)):
                    return True
            if c is object:
                return True
        try:
            import numbers
            if any(c in (numbers.Number, numbers.Real) for c in cl):
                return True
            if isinstance(x, SInt) and numbers.Integral in cl:
                return True
        except TypeError:
            pass
        return isinstance(x, tuple(c for c in cl if isinstance(c, type)) or ())
    return isinstance(x, cls)


def s_len(x):
    f = getattr(type(x), "__slen__", None)
    if f is not None:
        return f(x)
    return len(x)


def _minmax(pick, real):
    def f(*a, **k):
        if k:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r
        return real(*a)
    return f


def s_pow(a, b, m=None):
    return pow(a, b, m) if m is not None else a ** b


class Loader:
    """A fresh set of repository modules (one per rank and path)."""

    def __init__(self, overrides=None, fs=None):
        self.mods = {}
        self.overrides = dict(overrides or {})
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["int"] = sint
        b["float"] = sfloat
        b["isinstance"] = s_isinstance
        b["len"] = s_len
        b["min"] = _minmax(smin, min)
        b["max"] = _minmax(smax, max)
        b["print"] = lambda *a, **k: None
        if fs is not None:
            b["open"] = fs.open
        self.builtins = b
        self.fs = fs

    def _shim(self, name):
        if name in self.overrides:
            return self.overrides[name]
        if name == "numpy":
            return sarr.NP
        if name in fakempi.MODULES:
            return fakempi.MODULES[name]
        if self.fs is not None and name in self.fs.MODULES:
            return self.fs.MODULES[name]
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            name = pkg + ("." + name if name else "")
        if name == "virgo" or name.startswith("virgo."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = name + "." + f
                        if self._path(sub):
                            self.load(sub)
                return m
            return self.mods["virgo"]
        top = name.split(".")[0]
        s = self._shim(name)
        if s is not None:
            if fromlist:
                return s
            t = self._shim(top)
            return t if t is not None else s
        t = self._shim(top)
        if t is not None and name != top:
            if not fromlist:
                return t
            o = t
            for p in name.split(".")[1:]:
                o = getattr(o, p)
            return o
        return __import__(name, globals if level == 0 else None, locals, fromlist, 0)

    def _path(self, name):
        p = os.path.join(PYROOT, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        else:
            parent = None
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        if path.endswith("__init__.py"):
            m.__package__ = name
            m.__path__ = [os.path.dirname(path)]
        else:
            m.__package__ = name.rsplit(".", 1)[0] if "." in name else ""
        self.mods[name] = m
        if os.path.exists(path):
            exec(_code(path), m.__dict__)
        if parent is not None:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m

    def script(self, path, name, globs):
        """Run the file at path (relative to the repository) as module name."""
        p = os.path.join(REPO, path)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__.update(globs)
        warnings.simplefilter("ignore", DeprecationWarning)
        exec(_code(p), m.__dict__)
        return m
