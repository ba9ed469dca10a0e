"""Symbolic ndarray (SArr) and the numpy stand-in module used by the code
under test.  Storage is a real numpy object array (so views, strides, memory
order, reshape-copies and fancy indexing behave exactly as in numpy); the
element dtype is carried alongside and every operation applies that dtype's
casting and wrap-around rules.  Operands without symbolic elements are handed
to the real numpy function.
"""
import builtins
import functools
import operator
import types

import numpy as np
import z3

from . import core
from .scalars import (SBool, SInt, SReal, Sym, cast_scalar, int_op_raw, int_range, is_floatlike,
                      is_intlike, is_sym, ite, mkbool, real_op_raw, sand, scalar_eq, smax, smin, snot,
                      sor, _cmp, real_cmp)


class Uninit:
    """An uninitialised element: becomes an unconstrained variable when read."""
    __slots__ = ("id", "val")

    def __init__(self):
        e = core.eng()
        self.id = e.uninit_ctr
        e.uninit_ctr += 1
        self.val = None

    def read(self, dt):
        if self.val is None or self.val[0] != dt:
            e = core.eng()
            name = "uninit!%d!%s" % (self.id, dt.str)
            if dt.kind in "iu":
                m, M = int_range(dt)
                t = e.new_var(name, "int")
                e.assume(z3.And(t >= m, t <= M))
                v = SInt(t, m, M, dt)
            elif dt.kind == "b":
                v = SBool(e.new_var(name, "bool"))
            elif dt.kind == "f":
                v = SReal(e.new_var(name, "real"), dt)
            else:
                v = Opaque("uninit%d" % self.id)
            self.val = (dt, v)
        return self.val[1]


class Opaque:
    """A value that can only be moved around and compared by identity."""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "Opaque(%s)" % (self.tag,)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.tag == self.tag

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.tag)

    def byteswap(self):
        if isinstance(self.tag, tuple) and self.tag[0] == "swapped":
            return typed(self.tag[3].v, np.dtype(self.tag[2]))
        raise core.Inconclusive("byteswap of an opaque value")

    def copy(self):
        return self

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")


def objdtype(dt):
    dt = np.dtype(dt)
    if dt.names:
        return np.dtype([(n, objdtype(dt.fields[n][0].base), dt.fields[n][0].shape) for n in dt.names])
    return np.dtype(object)


def _obj0(v):
    z = np.empty((), dtype=object)
    z[()] = v
    return z


def new_obj(shape, fill=None, order="C", dt=None):
    od = objdtype(dt) if dt is not None else object
    a = np.empty(shape, dtype=od, order=order)
    return a


def uninit_fill(d):
    if d.dtype.names:
        for n in d.dtype.names:
            uninit_fill(d[n])
        return
    it = np.nditer(d, flags=["refs_ok", "zerosize_ok", "multi_index"], op_flags=["writeonly"]) if d.ndim else None
    if it is None:
        d[()] = Uninit()
        return
    for ix in np.ndindex(d.shape):
        d[ix] = Uninit()


def fill_obj(d, dt, v):
    if d.dtype.names:
        for n in d.dtype.names:
            fill_obj(d[n], dt.fields[n][0].base, v)
        return
    d[...] = raw(cast_scalar(v, dt))


def raw(v):
    """Storage form of an element: plain Python value or symbolic object."""
    if isinstance(v, np.generic) and not isinstance(v, np.void):
        return v.item()
    return v


def typed(v, dt):
    """Typed form of a stored element (what numpy would hand out)."""
    if isinstance(v, Uninit):
        return v.read(dt)
    if isinstance(v, Sym):
        if isinstance(v, SInt) and v.dt != dt and dt.kind in "iu":
            return SInt(v.t, v.lo, v.hi, dt, v.bits, v.tc)
        if isinstance(v, SReal) and v.dt != dt and dt.kind == "f":
            return SReal(v.t, dt)
        return v
    if isinstance(v, Opaque) or v is None:
        return v
    if dt.kind == "O":
        return v
    return dt.type(v)


class Flags:
    def __init__(self, d):
        self._f = d.flags
        self.c_contiguous = d.flags.c_contiguous
        self.f_contiguous = d.flags.f_contiguous
        self.contiguous = d.flags.c_contiguous
        self.writeable = d.flags.writeable
        self.owndata = d.flags.owndata
        self.aligned = True

    def __getitem__(self, k):
        k = {"C": "C_CONTIGUOUS", "F": "F_CONTIGUOUS", "W": "WRITEABLE"}.get(k, k)
        return getattr(self, k.lower())


class _NdMeta(type):
    def __instancecheck__(cls, obj):
        if cls is SArr:
            return type.__instancecheck__(cls, obj) or isinstance(obj, np.ndarray)
        return type.__instancecheck__(cls, obj)


def field(d, n):
    """Field of a structured object array, always an array sharing memory."""
    if d.ndim == 0:
        return d.reshape(1)[n].reshape(())
    return d[n]


class SArr(metaclass=_NdMeta):
    _is_sarr = True
    __array_ufunc__ = None
    __array_priority__ = 1000
    __hash__ = None

    def __new__(cls, shape=None, dtype=float, buffer=None, offset=0, strides=None, order=None,
                _d=None, _dt=None):
        self = object.__new__(cls)
        if _d is not None:
            self._d = _d
            self._dt = np.dtype(_dt)
            return self
        dt = np.dtype(dtype)
        if buffer is not None:
            from . import fakeio
            return fakeio.ndarray_from_buffer(shape, dt, buffer, offset, strides, order)
        self._d = new_obj(norm_shape(shape), order=order or "C", dt=dt)
        self._dt = dt
        uninit_fill(self._d)
        return self

    def __init__(self, *a, **k):
        pass

    # --- basic attributes
    @property
    def dtype(self):
        return self._dt

    @dtype.setter
    def dtype(self, dt):
        dt = np.dtype(dt)
        r = self.view(dt)
        self._d, self._dt = r._d, r._dt

    @property
    def shape(self):
        return self._d.shape

    @shape.setter
    def shape(self, s):
        self._d.shape = s

    @property
    def ndim(self):
        return self._d.ndim

    @property
    def size(self):
        return self._d.size

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self._dt.itemsize * self._d.size

    @property
    def flags(self):
        return Flags(self._d)

    @property
    def strides(self):
        w = self._d.dtype.itemsize
        return tuple(s // w * self._dt.itemsize for s in self._d.strides)

    @property
    def base(self):
        return self._d.base

    @property
    def T(self):
        return self._wrap(self._d.T)

    @property
    def data(self):
        return self

    @property
    def flat(self):
        return iter(self.ravel())

    @property
    def real(self):
        return self

    def _wrap(self, d, dt=None):
        r = SArr(_d=d, _dt=self._dt if dt is None else dt)
        if type(self) is not SArr:
            r = _as_subclass(r, type(self), self)
        return r

    def __len__(self):
        if self._d.ndim == 0:
            raise TypeError("len() of unsized object")
        return self._d.shape[0]

    def __iter__(self):
        if self._d.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self._d.shape[0]):
            yield self[i]

    def _scalar0(self):
        if self._d.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return typed(self._d.reshape(-1)[0], self._dt)

    def __int__(self):
        return int(self._scalar0())

    def __index__(self):
        if self._d.ndim != 0 or self._dt.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._scalar0())

    def __float__(self):
        return float(self._scalar0())

    def __bool__(self):
        if self._d.size == 0:
            return False
        if self._d.size > 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self._scalar0())

    def __repr__(self):
        return "SArr(%s, %s)" % (self._d.tolist(), self._dt)

    def __format__(self, spec):
        if self._d.ndim == 0:
            return format(self._scalar0(), spec)
        return repr(self)

    def __str__(self):
        return str(concretize_arr(self))

    def __array__(self, dtype=None, copy=None):
        r = concretize_arr(self)
        return r if dtype is None else r.astype(dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise core.Inconclusive("pickling of a symbolic array")

    def __contains__(self, v):
        return bool(any_(binop("eq", self, v)))

    # --- element helpers
    def elems(self):
        """flat list of typed elements (C order)"""
        if self._d.dtype.names:
            lists = []
            for n in self._dt.names:
                ft = self._dt.fields[n][0]
                c = SArr(_d=field(self._d, n), _dt=ft.base)
                if ft.shape:
                    c = c.reshape(self._d.size, int(np.prod(ft.shape, dtype=int)))
                    lists.append([tuple(r.elems()) for r in c])
                else:
                    lists.append(c.elems())
            return [tuple(x) for x in zip(*lists)]
        dt = self._dt
        return [typed(v, dt) for v in self._d.ravel().tolist()]

    def has_sym(self):
        if self._d.dtype.names:
            return builtins.any(SArr(_d=field(self._d, n), _dt=self._dt.fields[n][0].base).has_sym()
                                for n in self._d.dtype.names)
        for v in self._d.ravel().tolist():
            if isinstance(v, (Sym, Uninit, Opaque)):
                return True
        return False

    def to_real(self):
        """Real ndarray; only call when has_sym() is False."""
        if self._d.dtype.names:
            out = np.empty(self._d.shape, dtype=self._dt)
            for n in self._dt.names:
                out[n] = SArr(_d=field(self._d, n), _dt=self._dt.fields[n][0].base).to_real()
            return out
        out = np.empty(self._d.shape, dtype=self._dt)
        if self._dt.kind in "iufb" or self._dt.kind in "SUO":
            out[...] = self._d
        elif self._dt.kind == "V":
            out[...] = 0
        return out

    # --- indexing
    def __getitem__(self, key):
        if isinstance(key, str):
            if not self._dt.names or key not in self._dt.names:
                raise ValueError("no field of name %s" % key)
            return SArr(_d=field(self._d, key), _dt=self._dt.fields[key][0].base)
        if isinstance(key, list) and key and isinstance(key[0], str):
            dt = np.dtype([(n, self._dt.fields[n][0]) for n in key])
            out = SArr(_d=new_obj(self._d.shape, dt=dt), _dt=dt)
            for n in key:
                out._d[n] = self._d[n]
            return out
        nk, sel = normkey(self, key)
        if sel is not None:
            return sel
        r = self._d[nk]
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not _keeps_array(nk):
                return typed(r[()], self._dt) if not r.dtype.names else SArr(_d=r, _dt=self._dt)
            return self._wrap(r)
        if isinstance(r, np.void):
            # keep a view onto the record
            k = nk if isinstance(nk, tuple) else (nk,)
            k = tuple(slice(int(x), int(x) + 1) if int(x) != -1 else slice(-1, None) for x in k if x is not Ellipsis)
            return SArr(_d=self._d[k].reshape(()), _dt=self._dt)
        return typed(r, self._dt)

    def __setitem__(self, key, value):
        if isinstance(key, str):
            SArr(_d=field(self._d, key), _dt=self._dt.fields[key][0].base)[...] = value
            return
        nk = normkey(self, key, setting=True)[0]
        if self._d.dtype.names:
            v = value if hasattr(value, "_is_sarr") else None
            if v is None:
                v = asarr(np.asarray(value, dtype=self._dt)) if not _contains_sym(value) else \
                    _struct_from_tuples(value, self._dt)
            v = astype(v, self._dt)
            self._d[nk] = v._d
            return
        if is_sym(value) or isinstance(value, (int, float, bool, np.generic, bytes, str, Opaque)) or value is None:
            if isinstance(value, np.void):
                raise core.Inconclusive("void assignment")
            v = value if isinstance(value, Opaque) or value is None else raw(_assign_cast(value, self._dt))
            tgt = self._d[nk] if not isinstance(nk, np.ndarray) else None
            if is_sym(v) or isinstance(v, Opaque):
                self._d[nk] = _obj0(v) if isinstance(tgt, np.ndarray) or tgt is None else v
            else:
                self._d[nk] = v
            return
        v = asarr(value)
        v = astype(v, self._dt)
        # numpy resolves overlap between source and destination itself
        if v._d.ndim == 0:
            x = v._d[()]
            tgt = self._d[nk]
            self._d[nk] = _obj0(x) if isinstance(tgt, np.ndarray) else x
        else:
            self._d[nk] = v._d

    # --- methods
    def copy(self, order="C"):
        return self._wrap(self._d.copy(order))

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        r = astype(self, np.dtype(dtype), copy=copy)
        if type(self) is not SArr and type(r) is SArr:
            r = _as_subclass(r, type(self), self)
        return r

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and not isinstance(shape[0], (int, np.integer, SInt)):
            shape = shape[0]
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        return self._wrap(self._d.reshape(tuple(int(s) for s in shape), order=order))

    def ravel(self, order="C"):
        return self._wrap(self._d.ravel(order))

    def flatten(self, order="C"):
        return self._wrap(self._d.flatten(order))

    def swapaxes(self, a, b):
        return self._wrap(self._d.swapaxes(a, b))

    def transpose(self, *axes):
        return self._wrap(self._d.transpose(*axes))

    def squeeze(self, axis=None):
        return self._wrap(self._d.squeeze(axis) if axis is not None else self._d.squeeze())

    def view(self, t=None, type=None):
        if type is not None:
            t = type
        if t is None:
            return self._wrap(self._d[...])
        if isinstance(t, builtins.type) and issubclass(t, SArr):
            return _as_subclass(SArr(_d=self._d[...], _dt=self._dt), t, self)
        if t is np.ndarray:
            return SArr(_d=self._d[...], _dt=self._dt)
        dt = np.dtype(t)
        if dt == self._dt:
            return self._wrap(self._d[...])
        if dt.newbyteorder("=") == self._dt.newbyteorder("=") and dt.itemsize > 1:
            # same type, other byte order: values are byte-swapped
            r = self.byteswap()
            return SArr(_d=r._d, _dt=dt)
        if self._dt.kind in "iub" and dt.kind in "iub" and dt.itemsize == self._dt.itemsize:
            out = new_obj(self._d.shape)
            out[...] = self._d
            return astype(SArr(_d=out, _dt=self._dt), dt)
        if self.has_sym():
            raise core.Inconclusive("view of symbolic data with another dtype")
        return from_real(self.to_real().view(dt))

    def byteswap(self, inplace=False):
        if not self.has_sym():
            r = from_real(self.to_real().byteswap())
        else:
            r = _map1(lambda x: _byteswap(x, self._dt), self, self._dt)
        if inplace:
            self._d[...] = r._d
            return self
        return r

    def newbyteorder(self, o="S"):
        return self.view(self._dt.newbyteorder(o))

    def tolist(self):
        return self._d.tolist() if not self._d.dtype.names else self.elems()

    def item(self, *a):
        x = self[a] if a else self._scalar0()
        return x.item() if hasattr(x, "item") else x

    def tofile(self, f, sep="", format="%s"):
        from . import fakeio
        fakeio.tofile(self, f, sep)

    def tobytes(self, order="C"):
        from . import fakeio
        return fakeio.array_to_bytes(self)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, **k):
        return TABLE["sum"](self, axis=axis, dtype=dtype, out=out, **k)

    def prod(self, axis=None, dtype=None, out=None, **k):
        return TABLE["prod"](self, axis=axis, dtype=dtype, out=out, **k)

    def cumsum(self, axis=None, dtype=None, out=None):
        return TABLE["cumsum"](self, axis=axis, dtype=dtype, out=out)

    def cumprod(self, axis=None, dtype=None, out=None):
        return TABLE["cumprod"](self, axis=axis, dtype=dtype, out=out)

    def max(self, axis=None, out=None, **k):
        return TABLE["amax"](self, axis, out=out, **k)

    def min(self, axis=None, out=None, **k):
        return TABLE["amin"](self, axis, out=out, **k)

    def any(self, axis=None, out=None, **k):
        return TABLE["any"](self, axis, out=out, **k)

    def all(self, axis=None, out=None, **k):
        return TABLE["all"](self, axis, out=out, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return TABLE["mean"](self, axis, dtype, out=out, **k)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        if self._d.ndim != 1:
            self._d[...] = npextra.take_along_axis(self, argsort(self, axis), axis)._d
            return
        ix = argsort(self)
        self._d[...] = self._d[_idx_list(ix)]

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side, sorter)

    def nonzero(self):
        return nonzero(self)

    def repeat(self, repeats, axis=None):
        return repeat(self, repeats, axis)

    def take(self, idx, axis=None, out=None, mode="raise"):
        return TABLE["take"](self, idx, axis, out=out, mode=mode)

    def clip(self, min=None, max=None, out=None, **k):
        return TABLE["clip"](self, min, max, out=out, **k)

    def argmax(self, axis=None, out=None, **k):
        return TABLE["argmax"](self, axis, out=out, **k)

    def argmin(self, axis=None, out=None, **k):
        return TABLE["argmin"](self, axis, out=out, **k)

    def resize(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        n = new_obj(shape)
        n[...] = 0
        k = builtins.min(n.size, self._d.size)
        n.reshape(-1)[:k] = self._d.reshape(-1)[:k]
        self._d = n

    def round(self, decimals=0, out=None):
        return _fallback_call(np.round, (self, decimals), {})

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_"):
            raise AttributeError(name)
        m = npextra.mget(name)
        if m is not None:
            return functools.partial(m, self)
        if hasattr(np.ndarray, name):
            attr = getattr(np.ndarray, name)
            if callable(attr):
                return lambda *a, **k: _fallback_call(
                    lambda s, *aa, **kk: getattr(s, name)(*aa, **kk), (self,) + a, k)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)


def _as_subclass(r, cls, obj):
    o = object.__new__(cls)
    o._d, o._dt = r._d, r._dt
    f = getattr(cls, "__array_finalize__", None)
    if f is not None:
        f(o, obj)
    return o


def _keeps_array(nk):
    """Does this (normalised) key produce a 0-d array rather than a scalar?"""
    if nk is Ellipsis:
        return True
    if isinstance(nk, tuple):
        return builtins.any(x is Ellipsis for x in nk)
    return False


def norm_shape(shape):
    if hasattr(shape, "_is_sarr"):
        return tuple(int(x) for x in shape.elems()) if shape.ndim else (int(shape),)
    if isinstance(shape, (int, np.integer, SInt)):
        return (int(shape),)
    if isinstance(shape, float) or isinstance(shape, np.floating):
        raise TypeError("'float' object cannot be interpreted as an integer")
    out = []
    for s in shape:
        if isinstance(s, (float, np.floating, SReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(operator.index(s))
    return tuple(out)


def _contains_sym(x):
    if isinstance(x, (Sym, Opaque)) or hasattr(x, "_is_sarr") or hasattr(x, "_is_farr"):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sym(y) for y in x)
    return False


def _struct_from_tuples(value, dt):
    if isinstance(value, tuple):
        out = SArr(_d=new_obj((), dt=dt), _dt=dt)
        for n, v in zip(dt.names, value):
            out[n][...] = v
        return out
    out = SArr(_d=new_obj((len(value),), dt=dt), _dt=dt)
    for i, t in enumerate(value):
        for n, v in zip(dt.names, t):
            out[n][i] = v
    return out


def _assign_cast(v, dt):
    if isinstance(v, int) and not isinstance(v, bool) and dt.kind in "iu":
        m, M = int_range(dt)
        if not (m <= v <= M) and not (-2**63 <= v < 2**64):
            raise OverflowError("Python int too large to convert to C long")
    if dt.kind in "iu" and isinstance(v, (float, np.floating)):
        if v != v or v in (float("inf"), float("-inf")):
            if isinstance(v, np.floating):
                return cast_scalar(v, dt)
            raise ValueError("cannot convert float NaN to integer")
    return cast_scalar(v, dt)


def _idx_list(a):
    if hasattr(a, "_is_sarr"):
        if a._dt.kind == "b":
            return np.asarray([bool(x) for x in a.elems()], dtype=bool).reshape(a.shape)
        if a._dt.kind not in "iu":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.asarray([int(x) for x in a.elems()], dtype=np.int64).reshape(a.shape)
    return np.asarray(a)


def _norm1(k):
    if k is None or k is Ellipsis:
        return k
    if isinstance(k, slice):
        def c(x):
            if x is None:
                return None
            if isinstance(x, (float, np.floating, SReal)):
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            return operator.index(x)
        return slice(c(k.start), c(k.stop), c(k.step))
    if isinstance(k, (SBool,)):
        return np.asarray(bool(k))
    if isinstance(k, (bool, np.bool_)):
        return k
    if isinstance(k, (int, np.integer)):
        return int(k)
    if isinstance(k, (float, np.floating, SReal)):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and "
                         "integer or boolean arrays are valid indices")
    return k


def _is_symidx(k):
    if isinstance(k, SInt):
        return True
    return hasattr(k, "_is_sarr") and k._dt.kind in "iu" and k.has_sym()


def normkey(self, key, setting=False):
    """-> (numpy-usable key, selected result or None)"""
    if hasattr(key, "_is_farr"):
        key = key.to_sarr()
    keys = key if isinstance(key, tuple) else (key,)
    keys = tuple(asarr(k) if isinstance(k, list) else k for k in keys)
    keys = tuple(k.to_sarr() if hasattr(k, "_is_farr") else k for k in keys)
    keys = tuple(typed(k._d[()], k._dt) if hasattr(k, "_is_sarr") and k.ndim == 0 and k._dt.kind in "iu" else k
                 for k in keys)
    if builtins.any(_is_symidx(k) for k in keys):
        if not setting:
            r = _sym_select(self, keys)
            if r is not None:
                return None, r
        keys = tuple(int(k) if isinstance(k, SInt) else k for k in keys)
    out = []
    for k in keys:
        if hasattr(k, "_is_sarr"):
            out.append(_idx_list(k))
        else:
            out.append(_norm1(k))
    if isinstance(key, tuple):
        return tuple(out), None
    return out[0], None


SELECT_MAX = 256


def _sym_select(self, keys):
    """self[keys] where some index is symbolic: ite-select (bounds decided)."""
    if self._d.dtype.names:
        return None
    ks = [k for k in keys if k is not Ellipsis]
    if builtins.any(isinstance(k, slice) or k is None for k in ks):
        if not builtins.all(k == slice(None) for k in ks if isinstance(k, slice)) or builtins.any(k is None for k in ks):
            return None
    if Ellipsis in [k for k in keys if not hasattr(k, "_is_sarr")] and keys[-1] is not Ellipsis:
        return None
    while ks and isinstance(ks[-1], slice):
        ks.pop()
    if not ks or builtins.any(isinstance(k, slice) for k in ks) or len(ks) > self.ndim:
        return None
    if not builtins.any(hasattr(k, "_is_sarr") or isinstance(k, np.ndarray) for k in ks) and \
            (len(ks) < self.ndim or builtins.any(k is Ellipsis for k in keys)):
        return None     # basic indexing gives a view: needs a concrete index
    arrs = []
    for k in ks:
        if isinstance(k, (SInt, int, np.integer)):
            arrs.append(_obj0(k))
        elif hasattr(k, "_is_sarr") and k._dt.kind in "iu":
            o = np.empty(k.shape, dtype=object)
            o.reshape(-1)[...] = 0
            el = k.elems()
            of = o.reshape(-1)
            for i, x in enumerate(el):
                of[i] = x
            arrs.append(o)
        elif isinstance(k, np.ndarray) and k.dtype.kind in "iu":
            arrs.append(k.astype(object))
        else:
            return None
    B = np.broadcast_arrays(*arrs)
    shp = B[0].shape
    rest = self._d.shape[len(ks):]
    total = 1
    for i in range(len(ks)):
        total *= self._d.shape[i]
    if total > SELECT_MAX * 4:
        return None
    out = new_obj(shp + rest)
    for ix in np.ndindex(shp):
        v = _sel(self._d, [b[ix] for b in B], self._dt)
        if rest:
            out[ix] = v
        else:
            out[ix] = v if not isinstance(v, np.generic) else v.item()
    if shp == () and rest == ():
        return typed(out[()], self._dt)
    return SArr(_d=out, _dt=self._dt)


def _sel(d, idx, dt):
    if not idx:
        if isinstance(d, np.ndarray):
            return d
        return typed(d, dt)
    i = idx[0]
    n = d.shape[0]
    if not is_sym(i):
        i = int(i)
        return _sel(d[i], idx[1:], dt)
    e = core.eng()
    lo = i.lo if i.lo is not None else -n - 1
    hi = i.hi if i.hi is not None else n
    if lo < -n or hi >= n:
        if not e.decide(z3.And(i.t >= -n, i.t < n)):
            raise IndexError("index out of bounds for axis 0 with size %d" % n)
        lo, hi = builtins.max(lo, -n), builtins.min(hi, n - 1)
    if lo < 0:
        if hi < 0 or e.decide(i.t < 0):
            i = SInt(i.t + n, lo + n, n - 1)
            lo, hi = lo + n, n - 1 if hi >= 0 else hi + n
        else:
            lo = 0
    r = None
    for v in range(hi, lo - 1, -1):
        x = _sel(d[v], idx[1:], dt)
        if r is None:
            r = x
        else:
            c = SBool(i.t == v)
            r = _ite_any(c, x, r, dt)
    return r


def _ite_any(c, a, b, dt):
    if isinstance(a, np.ndarray):
        o = new_obj(a.shape)
        for ix in np.ndindex(a.shape):
            o[ix] = raw(ite(c, typed(a[ix], dt), typed(b[ix], dt)))
        return o
    return ite(c, a, b)


def _byteswap(x, dt):
    if isinstance(x, SInt):
        return SInt(x.t, x.lo, x.hi, dt, x.bits, x.tc).byteswap() if dt.itemsize > 1 else x
    if is_sym(x) or isinstance(x, Opaque):
        from . import fakeio
        return fakeio.byteswap_opaque(x, dt)
    return np.asarray(x, dtype=dt).byteswap()[()]


# ------------------------------------------------------------ conversion
def from_real(a):
    a = np.asarray(a)
    if a.dtype.names:
        d = new_obj(a.shape, dt=a.dtype)
        for n in a.dtype.names:
            d[n] = from_real(a[n])._d
        return SArr(_d=d, _dt=a.dtype)
    if a.dtype.kind == "V":
        d = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            d[ix] = bytes(a[ix].tobytes())
        return SArr(_d=d, _dt=a.dtype)
    return SArr(_d=a.astype(object), _dt=a.dtype)


def concretize_scalar(x):
    if isinstance(x, SBool):
        return bool(x)
    if isinstance(x, SInt):
        v = int(x)
        return v if x.dt is None else x.dt.type(v)
    if isinstance(x, SReal):
        return x._concrete()
    return x


def concretize_arr(a):
    if not a.has_sym():
        return a.to_real()
    if a._d.dtype.names:
        out = np.empty(a.shape, dtype=a._dt)
        for n in a._dt.names:
            out[n] = concretize_arr(a[n])
        return out
    out = np.empty(a.shape, dtype=a._dt)
    of = out.reshape(-1)
    for i, x in enumerate(a.elems()):
        of[i] = concretize_scalar(x)
    return out


def concretize(x):
    if hasattr(x, "_is_farr"):
        x = x.to_sarr()
    if hasattr(x, "_is_sarr"):
        return concretize_arr(x)
    if is_sym(x):
        return concretize_scalar(x)
    if isinstance(x, list):
        return [concretize(y) for y in x]
    if isinstance(x, tuple):
        return tuple(concretize(y) for y in x)
    if isinstance(x, dict):
        return {k: concretize(v) for k, v in x.items()}
    if isinstance(x, Ufunc):
        return x.real
    return x


def wrap_result(x):
    if isinstance(x, np.ndarray):
        return from_real(x)
    if type(x) is tuple:
        return tuple(wrap_result(y) for y in x)
    if type(x) is list:
        return [wrap_result(y) for y in x]
    return x


def _fallback_call(f, a, k):
    e = core.ENG
    if e is not None and (_contains_sym(list(a)) or _contains_sym(list(k.values()))):
        if _has_sym_deep(a) or _has_sym_deep(k):
            e.notes.add("arguments of numpy.%s concretised (forked per value)" %
                        getattr(f, "__name__", "?"))
    return wrap_result(f(*[concretize(x) for x in a], **{n: concretize(v) for n, v in k.items()}))


def _has_sym_deep(x):
    if is_sym(x) or isinstance(x, Opaque):
        return True
    if hasattr(x, "_is_sarr"):
        return x.has_sym()
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_sym_deep(y) for y in x)
    if isinstance(x, dict):
        return builtins.any(_has_sym_deep(y) for y in x.values())
    return False


def elem_dtype(x):
    if hasattr(x, "_is_sarr"):
        return x._dt
    if isinstance(x, SBool):
        return np.dtype(bool)
    if isinstance(x, SInt):
        if x.dt is None:
            return np.dtype(np.uint64) if (x.hi is not None and x.hi > 2**63 - 1 and x.lo is not None and x.lo >= 0) \
                else np.dtype(np.int64)
        return x.dt
    if isinstance(x, SReal):
        return x.dtype
    if isinstance(x, Opaque):
        return np.dtype(object)
    return np.asarray(x).dtype


def asarr(x, dtype=None, copy=False):
    """np.asarray"""
    if hasattr(x, "_is_farr"):
        if dtype is None or np.dtype(dtype) == x.dtype:
            return x
        return x.astype(dtype)
    if hasattr(x, "_is_sarr"):
        r = x
        if dtype is not None and np.dtype(dtype) != r._dt:
            return astype(r, np.dtype(dtype))
        if copy:
            return r.copy()
        return r
    if hasattr(x, "__sarray__"):
        return asarr(x.__sarray__(), dtype)
    if is_sym(x) or isinstance(x, Opaque):
        dt = elem_dtype(x) if dtype is None else np.dtype(dtype)
        return SArr(_d=_obj0(raw(cast_scalar(x, dt)) if is_sym(x) else x), _dt=dt)
    if isinstance(x, (list, tuple)) and _contains_sym(x):
        if dtype is not None and np.dtype(dtype).names:
            return _struct_from_tuples(list(x), np.dtype(dtype))
        subs = [asarr(y) for y in x]
        if subs and builtins.all(hasattr(s, "_is_farr") is False for s in subs):
            shp = subs[0].shape
            if builtins.any(s.shape != shp for s in subs):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
            dt = np.result_type(*[s._dt for s in subs]) if dtype is None else np.dtype(dtype)
            subs = [astype(s, dt) for s in subs]
            d = new_obj((len(subs),) + shp)
            for i, s in enumerate(subs):
                if shp == ():
                    d[i] = s._d[()]
                else:
                    d[i] = s._d
            return SArr(_d=d, _dt=dt)
    if isinstance(x, np.ndarray):
        return from_real(x if dtype is None else x.astype(dtype))
    if isinstance(x, (range,)):
        x = list(x)
    return from_real(np.asarray(x, dtype=dtype))


def _map1(f, a, dt):
    d = new_obj(a.shape)
    it = d.reshape(-1) if d.flags.c_contiguous else None
    el = a.elems()
    flat = [raw(f(x)) for x in el]
    if d.ndim == 0:
        d[()] = flat[0]
    else:
        for i, v in enumerate(flat):
            it[i] = v
    return SArr(_d=d, _dt=dt)


def astype(a, dt, copy=True):
    dt = np.dtype(dt)
    if hasattr(a, "_is_farr"):
        return a.astype(dt)
    if dt == a._dt:
        return SArr(_d=a._d.copy(order="K"), _dt=dt) if copy else a
    if dt.names or a._dt.names:
        if dt.names and a._dt.names and len(dt.names) == len(a._dt.names):
            out = SArr(_d=new_obj(a.shape, dt=dt), _dt=dt)
            for n, m in zip(dt.names, a._dt.names):
                out[n][...] = a[m]
            return out
        raise core.Inconclusive("struct astype")
    if dt.newbyteorder("=") == a._dt.newbyteorder("="):
        return SArr(_d=a._d.copy(order="K"), _dt=dt)
    if not a.has_sym():
        r = a.to_real()
        with np.errstate(all="ignore"):
            return from_real(r.astype(dt))
    if dt.kind in "OSUV" or a._dt.kind in "OSUV":
        return SArr(_d=a._d.copy(order="K"), _dt=dt)
    out = np.empty_like(a._d)
    for ix in np.ndindex(a.shape):
        out[ix] = raw(cast_scalar(typed(a._d[ix], a._dt), dt))
    return SArr(_d=out, _dt=dt)


# ------------------------------------------------------------ ufuncs
_RT = {}
_OPFN = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "floordiv": np.floor_divide,
         "mod": np.remainder, "truediv": np.true_divide, "lshift": np.left_shift, "rshift": np.right_shift,
         "and_": np.bitwise_and, "or_": np.bitwise_or, "xor": np.bitwise_xor, "pow": np.power,
         "lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "eq": np.equal,
         "ne": np.not_equal, "maximum": np.maximum, "minimum": np.minimum,
         "logical_and": np.logical_and, "logical_or": np.logical_or, "logical_xor": np.logical_xor,
         "fmod": np.fmod, "fmax": np.fmax, "fmin": np.fmin}
_CMPS = {"lt", "le", "gt", "ge", "eq", "ne"}


def _dummy(x):
    if hasattr(x, "_is_sarr") or hasattr(x, "_is_farr"):
        if x.ndim == 0:
            return x.dtype.type(1)
        return np.ones(1, dtype=x.dtype)
    if isinstance(x, SInt):
        if x.dt is not None:
            v = 1 if x.lo is None else builtins.max(builtins.abs(x.lo), 1)
            # value-based casting looks at the value: use a representative sign/size
            if x.lo is not None and x.lo < 0:
                return x.dt.type(builtins.max(x.lo, int_range(x.dt)[0]))
            return x.dt.type(builtins.min(x.hi if x.hi is not None else 1, int_range(x.dt)[1]))
        if x.hi is not None and x.hi > 2**63 - 1:
            return builtins.min(x.hi, 2**64 - 1)
        if x.lo is not None and x.lo < 0:
            return builtins.max(x.lo, -2**63)
        return x.hi if x.hi is not None else 1
    if isinstance(x, SBool):
        return np.bool_(True)
    if isinstance(x, SReal):
        return 1.0 if x.dt is None else x.dt.type(1)
    return x


def result_dtype(op, a, b):
    da, db = _dummy(a), _dummy(b)
    key = (op, da.dtype if isinstance(da, np.ndarray) else (type(da), da),
           db.dtype if isinstance(db, np.ndarray) else (type(db), db))
    try:
        r = _RT.get(key)
    except TypeError:
        key = None
        r = None
    if r is None:
        with np.errstate(all="ignore"):
            try:
                r = _OPFN[op](da, db).dtype
            except ValueError:
                r = np.result_type(da, db)
        if key is not None:
            _RT[key] = r
    return r


def op_elem(op, x, y, dt, cdt=None):
    """One element of a binary ufunc with output dtype dt."""
    if op in _CMPS:
        if isinstance(x, tuple) or isinstance(y, tuple):
            r = scalar_eq(x, y)
            return r if op == "eq" else snot(r)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return (x == y) if op == "eq" else (x != y)
        if cdt is not None and cdt.kind == "f" and not (is_floatlike(x) and is_floatlike(y)):
            x, y = cast_scalar(x, cdt), cast_scalar(y, cdt)
        if is_sym(x) or is_sym(y):
            if isinstance(x, SBool) and op not in ("eq", "ne"):
                x = x.as_int()
            if isinstance(x, (bool, np.bool_)) and not isinstance(y, SBool):
                x = int(x)
            return getattr(operator, op)(x, y)
        return bool(getattr(operator, op)(x, y))
    if op in ("maximum", "fmax"):
        return cast_scalar(smax(cast_scalar(x, dt), cast_scalar(y, dt)), dt)
    if op in ("minimum", "fmin"):
        return cast_scalar(smin(cast_scalar(x, dt), cast_scalar(y, dt)), dt)
    if op == "logical_and":
        return sand(_truth(x), _truth(y))
    if op == "logical_or":
        return sor(_truth(x), _truth(y))
    if op == "logical_xor":
        return _truth(x) != _truth(y)
    if dt.kind == "b":
        if op in ("and_", "mul"):
            return sand(_truth(x), _truth(y))
        if op in ("or_", "add"):
            return sor(_truth(x), _truth(y))
        if op == "xor":
            return _truth(x) != _truth(y)
    if dt.kind in "iu":
        x, y = cast_scalar(x, dt), cast_scalar(y, dt)
        if not is_sym(x) and not is_sym(y):
            with np.errstate(all="ignore"):
                return _OPFN[op](x, y)
        return int_op_raw(op, x, y, dt)
    if dt.kind == "f":
        x, y = cast_scalar(x, dt), cast_scalar(y, dt)
        if not is_sym(x) and not is_sym(y):
            with np.errstate(all="ignore"):
                return _OPFN[op](x, y)
        return real_op_raw(op, x, y, dt)
    raise core.Inconclusive("ufunc %s on %s" % (op, dt))


def _truth(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return x
    return x != 0


def _prep(x):
    if hasattr(x, "_is_sarr"):
        return x
    if is_sym(x) or isinstance(x, (int, float, bool, np.generic, Opaque)):
        return x
    if isinstance(x, (bytes, str)):
        return x
    if isinstance(x, (np.ndarray, list, tuple, range)):
        return asarr(x)
    if hasattr(x, "__sarray__"):
        return asarr(x)
    return x


def binop(op, a, b):
    if hasattr(a, "_is_farr") or hasattr(b, "_is_farr"):
        from . import farr
        return farr.binop(op, a, b)
    a, b = _prep(a), _prep(b)
    if type(a).__module__.split(".")[0] == "unyt" or type(b).__module__.split(".")[0] == "unyt":
        ra = concretize(a)
        rb = concretize(b)
        return getattr(operator, op)(ra, rb)
    if not hasattr(a, "_is_sarr") and not hasattr(b, "_is_sarr"):
        return getattr(operator, op)(a, b)
    if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return _fallback_call(getattr(operator, op), (a, b), {})
    if (hasattr(a, "_is_sarr") and a._dt.names) or (hasattr(b, "_is_sarr") and b._dt.names):
        A, B = asarr(a), asarr(b)
        ea, eb = A.elems(), B.elems()
        if A.shape != B.shape:
            if B.shape == () and len(eb) == 1:
                eb = eb * len(ea)
                shp = A.shape
            elif A.shape == ():
                ea = ea * len(eb)
                shp = B.shape
            else:
                raise ValueError("operands could not be broadcast together")
        else:
            shp = A.shape
        d = new_obj(shp)
        fl = [op_elem(op, x, y, np.dtype(bool)) for x, y in zip(ea, eb)]
        if shp == ():
            return fl[0]
        df = d.reshape(-1)
        for i, v in enumerate(fl):
            df[i] = raw(v)
        return SArr(_d=d, _dt=bool)
    sa = hasattr(a, "_is_sarr") and a.has_sym() or is_sym(a) or isinstance(a, Opaque)
    sb = hasattr(b, "_is_sarr") and b.has_sym() or is_sym(b) or isinstance(b, Opaque)
    if not sa and not sb:
        ra = a.to_real() if hasattr(a, "_is_sarr") else a
        rb = b.to_real() if hasattr(b, "_is_sarr") else b
        r = _OPFN[op](ra, rb)
        if isinstance(r, np.ndarray):
            return _subcls(from_real(r), a, b)
        return r
    dt = result_dtype(op, a, b)
    cdt = None
    if op in _CMPS:
        try:
            da, db = _dummy(a), _dummy(b)
            cdt = np.result_type(da, db)
        except TypeError:
            cdt = None
    A = a._d if hasattr(a, "_is_sarr") else _obj0(a)
    B = b._d if hasattr(b, "_is_sarr") else _obj0(b)
    dta = a._dt if hasattr(a, "_is_sarr") else None
    dtb = b._dt if hasattr(b, "_is_sarr") else None
    BA, BB = np.broadcast_arrays(A, B)
    out = new_obj(BA.shape)
    la, lb = BA.ravel().tolist(), BB.ravel().tolist()
    res = []
    for x, y in zip(la, lb):
        if dta is not None:
            x = typed(x, dta)
        if dtb is not None:
            y = typed(y, dtb)
        res.append(raw(op_elem(op, x, y, dt, cdt)))
    if out.ndim == 0:
        return typed(res[0], dt)
    of = out.reshape(-1)
    for i, v in enumerate(res):
        of[i] = v
    return _subcls(SArr(_d=out, _dt=dt), a, b)


def _subcls(r, *xs):
    for x in xs:
        if hasattr(x, "_is_sarr") and type(x) is not SArr:
            return _as_subclass(r, type(x), x)
    return r


def _ibin(op):
    def f(self, o):
        r = binop(op, self, o)
        rdt = r.dtype if hasattr(r, "dtype") else np.asarray(r).dtype
        if not np.can_cast(rdt, self._dt, "same_kind"):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'"
                            % (_OPFN[op].__name__, rdt, self._dt))
        self[...] = r
        return self
    return f


setattr(SArr, "__divmod__", lambda self, o: (self // o, self % o))
setattr(SArr, "__rdivmod__", lambda self, o: (o // self, o % self))
setattr(SArr, "__matmul__", lambda self, o: npextra.dot(self, o))
setattr(SArr, "__rmatmul__", lambda self, o: npextra.dot(o, self))
for _op, _nm in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("floordiv", "floordiv"), ("mod", "mod"),
                 ("truediv", "truediv"), ("lshift", "lshift"), ("rshift", "rshift"), ("and_", "and"),
                 ("or_", "or"), ("xor", "xor"), ("pow", "pow")):
    setattr(SArr, "__%s__" % _nm, (lambda op: lambda self, o: binop(op, self, o))(_op))
    setattr(SArr, "__r%s__" % _nm, (lambda op: lambda self, o: binop(op, o, self))(_op))
    setattr(SArr, "__i%s__" % _nm, _ibin(_op))
for _op in _CMPS:
    setattr(SArr, "__%s__" % _op, (lambda op: lambda self, o: binop(op, self, o))(_op))


def unop(name, a):
    if hasattr(a, "_is_farr"):
        from . import farr
        return farr.unop(name, a)
    a = _prep(a)
    if not hasattr(a, "_is_sarr"):
        if is_sym(a):
            return {"neg": lambda: -a, "abs": lambda: abs(a), "invert": lambda: ~a,
                    "logical_not": lambda: snot(_truth(a)), "pos": lambda: a}[name]()
        return {"neg": np.negative, "abs": np.absolute, "invert": np.invert,
                "logical_not": np.logical_not, "pos": np.positive}[name](a)
    rf = {"neg": np.negative, "abs": np.absolute, "invert": np.invert, "logical_not": np.logical_not,
          "pos": np.positive}[name]
    if not a.has_sym():
        return wrap_result(rf(a.to_real()))
    dt = rf(np.ones(1, dtype=a._dt)).dtype
    f = {"neg": lambda x: cast_scalar(-x, dt), "abs": lambda x: cast_scalar(abs(x), dt),
         "invert": lambda x: snot(x) if a._dt.kind == "b" else cast_scalar(~x, dt),
         "logical_not": lambda x: snot(_truth(x)), "pos": lambda x: x}[name]
    r = _map1(f, a, dt)
    return typed(r._d[()], dt) if r.ndim == 0 else _subcls(r, a)


SArr.__neg__ = lambda self: unop("neg", self)
SArr.__abs__ = lambda self: unop("abs", self)
SArr.__invert__ = lambda self: unop("invert", self)
SArr.__pos__ = lambda self: self.copy()


# ------------------------------------------------------------ reductions
def _sumdt(dt, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    if dt.kind == "b" or (dt.kind == "i" and dt.itemsize < 8):
        return np.dtype(np.int64)
    if dt.kind == "u" and dt.itemsize < 8:
        return np.dtype(np.uint64)
    return dt.newbyteorder("=") if dt.kind in "iuf" else dt


def _fold(op, el, dt, start=None):
    r = start
    for x in el:
        x = cast_scalar(x, dt)
        r = x if r is None else op_elem(op, r, x, dt)
    return r


_IDENT = {"add": 0, "mul": 1, "logical_and": True, "logical_or": False, "and_": -1, "or_": 0, "xor": 0}
_REALRED = {"add": np.add, "mul": np.multiply, "maximum": np.maximum, "minimum": np.minimum}


def reduce_(op, a, axis=None, dtype=None, keepdims=False, initial=None, where=True):
    a = asarr(a)
    if where is not True:
        if axis is not None and a.ndim > 1:
            raise core.Inconclusive("reduction with where= along an axis")
        a = a.ravel()[asarr(where).ravel() != 0]
    if hasattr(a, "_is_farr"):
        a = a.to_sarr()
    if op in ("logical_and", "logical_or"):
        dt = np.dtype(bool)
    elif op in ("add", "mul"):
        dt = _sumdt(a._dt, dtype)
    else:
        dt = a._dt if dtype is None else np.dtype(dtype)
    if not a.has_sym() and initial is None:
        r = a.to_real()
        k = {} if op in ("logical_and", "logical_or") else {"dtype": dt}
        return wrap_result(_OPFN[op].reduce(r, axis=axis, keepdims=keepdims, **k)) if axis is not None or True else None
    if axis is None:
        el = a.elems()
        if not el and op not in _IDENT and initial is None:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % op)
        st = initial if initial is not None else (_IDENT.get(op) if not el else None)
        r = _fold(op, el, dt, None if st is None else cast_scalar(st, dt))
        if keepdims:
            return asarr([r], dt).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        axs = sorted(x % a.ndim for x in axis)
        rest = [x for x in range(a.ndim) if x not in axs]
        m = np.transpose(a._d, rest + axs).reshape([a.shape[x] for x in rest] + [-1])
        if where is not True:
            raise core.Inconclusive("reduction with where= along axes")
        r = reduce_(op, SArr(_d=m, _dt=a._dt), -1, dtype, False, initial)
        if keepdims:
            r = asarr(r).reshape([1 if x in axs else a.shape[x] for x in range(a.ndim)])
        return r
    ax = axis % a.ndim
    m = np.moveaxis(a._d, ax, 0)
    out = new_obj(m.shape[1:])
    if m.shape[0] == 0 and op not in _IDENT and initial is None:
        raise ValueError("zero-size array to reduction operation %s which has no identity" % op)
    for ix in np.ndindex(out.shape):
        el = [typed(m[(i,) + ix], a._dt) for i in range(m.shape[0])]
        st = initial if initial is not None else (_IDENT[op] if not el else None)
        out[ix] = raw(_fold(op, el, dt, None if st is None else cast_scalar(st, dt)))
    if keepdims:
        out = np.expand_dims(out, ax)
    return SArr(_d=out, _dt=dt) if out.ndim else typed(out[()], dt)


def sum_(a, axis=None, dtype=None, keepdims=False, initial=None, where=None):
    if where is not None:
        a = where_(where, a, 0)
    return reduce_("add", a, axis, dtype, keepdims, initial)


def any_(a, axis=None, out=None, keepdims=False, where=True):
    a = asarr(a)
    if where is not True:
        a = UF["logical_and"](a, where)
    if keepdims or axis is not None and (a.ndim > 1 or isinstance(axis, tuple)):
        return reduce_("logical_or", a, axis, None, keepdims)
    if hasattr(a, "_is_farr"):
        return bool(a.any())
    return sor(*[_truth(x) for x in a.elems()])


def all_(a, axis=None, out=None, keepdims=False, where=True):
    a = asarr(a)
    if where is not True:
        a = UF["logical_or"](a, UF["logical_not"](where))
    if keepdims or axis is not None and (a.ndim > 1 or isinstance(axis, tuple)):
        return reduce_("logical_and", a, axis, None, keepdims)
    if hasattr(a, "_is_farr"):
        return bool(a.all())
    if a._dt.names:
        return True
    return sand(*[_truth(x) for x in a.elems()])


def mean(a, axis=None, dtype=None, keepdims=False):
    a = asarr(a)
    if not a.has_sym():
        return wrap_result(np.mean(a.to_real(), axis=axis, dtype=dtype, keepdims=keepdims))
    if dtype is None:
        dtype = a._dt if a._dt.kind == "f" else np.dtype(float)
    n = a.size if axis is None else a.shape[axis]
    return sum_(a, axis, dtype=dtype, keepdims=keepdims) / n


def accumulate(op, a, axis=0, dtype=None):
    a = asarr(a)
    dt = _sumdt(a._dt, dtype) if op in ("add", "mul") else a._dt
    if not a.has_sym():
        k = {"dtype": dt} if op in ("add", "mul") else {}
        return from_real(_OPFN[op].accumulate(a.to_real(), axis=axis, **k))
    m = np.moveaxis(a._d, axis, 0)
    out = np.empty_like(m)
    for ix in np.ndindex(m.shape[1:]):
        r = None
        for i in range(m.shape[0]):
            x = cast_scalar(typed(m[(i,) + ix], a._dt), dt)
            r = x if r is None else op_elem(op, r, x, dt)
            out[(i,) + ix] = raw(r)
    return SArr(_d=np.moveaxis(out, 0, axis), _dt=dt)


def cumsum(a, axis=None, dtype=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return accumulate("add", a, axis, dtype)


def reduceat(op, a, indices, axis=0, dtype=None):
    a = asarr(a)
    ix = _idx_list(asarr(indices))
    dt = _sumdt(a._dt, dtype) if op == "add" else a._dt
    if dtype is None and op == "add":
        dt = a._dt if a._dt.kind != "b" else np.dtype(np.int64)
        # numpy: reduceat uses the same promotion as reduce for small ints
        dt = _sumdt(a._dt, None)
    if not a.has_sym():
        return from_real(_OPFN[op].reduceat(a.to_real(), ix, axis=axis, dtype=dtype))
    m = np.moveaxis(a._d, axis, 0)
    n = m.shape[0]
    for i in ix:
        if i < 0 or i >= n:
            raise IndexError("index %d out-of-bounds in add.reduceat [0, %d)" % (i, n))
    out = new_obj((len(ix),) + m.shape[1:])
    for k in range(len(ix)):
        lo = int(ix[k])
        hi = int(ix[k + 1]) if k + 1 < len(ix) else n
        for jx in np.ndindex(m.shape[1:]):
            if lo < hi:
                el = [typed(m[(i,) + jx], a._dt) for i in range(lo, hi)]
            else:
                el = [typed(m[(lo,) + jx], a._dt)]
            out[(k,) + jx] = raw(_fold(op, el, dt))
    return SArr(_d=np.moveaxis(out, 0, axis), _dt=dt)


class Ufunc:
    def __init__(self, name, op, real, nin=2):
        self.__name__ = name
        self.op = op
        self.real = real
        self.nin = nin

    def __call__(self, *a, out=None, where=True, dtype=None, casting=None, **k):
        if len(a) > self.nin:
            out = a[self.nin]
            a = a[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            return self._where(a, out, where, dtype)
        if self.nin == 1:
            r = unop(self.op, *a)
        elif self.op in ("logical_and", "logical_or", "logical_xor", "maximum", "minimum", "fmax", "fmin"):
            x, y = a
            if not hasattr(_prep(x), "_is_sarr") and not hasattr(_prep(y), "_is_sarr") and \
                    not hasattr(x, "_is_farr") and not hasattr(y, "_is_farr"):
                if is_sym(x) or is_sym(y):
                    r = op_elem(self.op, x, y, result_dtype(self.op, x, y))
                else:
                    r = self.real(x, y)
            else:
                r = binop(self.op, x, y)
        else:
            r = binop(self.op, *a)
            if not hasattr(r, "_is_sarr") and not is_sym(r) and not hasattr(r, "_is_farr"):
                r = np.asarray(r)[()]
        if dtype is not None:
            r = astype(asarr(r), dtype)
        if out is not None:
            rdt = elem_dtype(r)
            if not np.can_cast(rdt, out._dt, casting or "same_kind"):
                raise TypeError("Cannot cast ufunc output")
            out[...] = r
            return out
        return r

    def _where(self, a, out, where, dtype):
        """Elements where the condition holds (others keep their value, undefined without `out`)."""
        xs = TABLE["broadcast_arrays"](*[asarr(x) for x in a], asarr(where))
        xs, m = xs[:-1], xs[-1].ravel()
        ix = _idx_list(nonzero(m)[0])
        r = asarr(self(*[x.ravel()[ix] for x in xs], dtype=dtype))
        if out is None:
            out = empty(xs[0].shape, r._dt)
        npextra.put(out, ix, r) if len(ix) else None
        return out

    def at(self, a, idx, *b):
        a_idx = idx[0] if isinstance(idx, tuple) and len(idx) == 1 else idx
        ii = _idx_list(asarr(a_idx))
        if ii.dtype.kind not in "iu":
            raise IndexError("bad index for ufunc.at")
        if self.nin == 1:
            for i in ii.reshape(-1):
                a[int(i)] = self(a[int(i)])
            return
        v = asarr(b[0])
        n = a.shape[0]
        for i in ii.reshape(-1):
            if not (-n <= i < n):
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, n))
        dt = result_dtype(self.op, a, v)
        if not np.can_cast(dt, a._dt, "same_kind"):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'"
                            % (self.__name__, dt, a._dt))
        vb = np.broadcast_to(v._d, ii.shape + a.shape[1:])
        for k, i in enumerate(ii.reshape(-1)):
            a[int(i)] = self(a[int(i)], SArr(_d=vb[k], _dt=v._dt) if a.ndim > 1 else typed(vb[k], v._dt))

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None):
        return reduce_(self.op, a, axis, dtype, keepdims, initial)

    def accumulate(self, a, axis=0, dtype=None, out=None):
        return accumulate(self.op, a, axis, dtype)

    def reduceat(self, a, indices, axis=0, dtype=None, out=None):
        return reduceat(self.op, a, indices, axis, dtype)

    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return binop(self.op, a.reshape(tuple(a.shape) + (1,) * b.ndim), b)


# ------------------------------------------------------------ sorting
def lt_total(x, y):
    """x < y as a python bool (forks)."""
    if isinstance(x, tuple):
        for a, b in zip(x, y):
            if bool(scalar_eq(a, b)):
                continue
            return lt_total(a, b)
        return False
    return bool(x < y)


def argsort_list(el):
    # binary-free stable merge sort via functools.cmp_to_key: uses only "<"
    class K:
        __slots__ = ("v",)

        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return lt_total(self.v, o.v)
    return sorted(range(len(el)), key=lambda i: K(el[i]))


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = asarr(a)
    if hasattr(a, "_is_farr"):
        a = a.to_sarr()
    if a.ndim == 0:
        raise core.Inconclusive("argsort 0-d")
    if not a.has_sym():
        return from_real(np.argsort(a.to_real(), axis=axis, kind="stable"))
    if axis is None:
        a = a.ravel()
    if a.ndim != 1:
        m = np.moveaxis(a._d, axis, -1)
        r = np.empty(m.shape, dtype=np.int64)
        for ix in np.ndindex(m.shape[:-1]):
            r[ix] = argsort_list([typed(x, a._dt) for x in m[ix]])
        return from_real(np.moveaxis(r, -1, axis))
    return from_real(np.asarray(argsort_list(a.elems()), dtype=np.int64))


def sort(a, axis=-1, kind=None, order=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
    if a.ndim != 1:
        return npextra.take_along_axis(a, argsort(a, axis), axis)
    return a[argsort(a)]


def searchsorted(a, v, side="left", sorter=None):
    a = asarr(a)
    if hasattr(a, "_is_farr"):
        a = a.to_sarr()
    if sorter is not None:
        a = a[asarr(sorter)]
    V = asarr(v)
    if hasattr(V, "_is_farr"):
        V = V.to_sarr()
    if not a.has_sym() and not V.has_sym():
        return wrap_result(np.searchsorted(a.to_real(), V.to_real(), side=side))
    el = a.elems()
    cdt = np.result_type(a._dt, V._dt) if not a._dt.names else None
    if cdt is not None and cdt.kind == "f":
        el = [cast_scalar(x, cdt) for x in el]
    out = []
    for x in V.elems():
        if cdt is not None and cdt.kind == "f":
            x = cast_scalar(x, cdt)
        lo, hi = 0, len(el)
        while lo < hi:
            m = (lo + hi) // 2
            if side == "left":
                c = lt_total(el[m], x)
            elif side == "right":
                c = not lt_total(x, el[m])
            else:
                raise ValueError("bad side")
            if c:
                lo = m + 1
            else:
                hi = m
        out.append(lo)
    if V.ndim == 0:
        return np.int64(out[0])
    return from_real(np.asarray(out, dtype=np.int64).reshape(V.shape))


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = asarr(a)
    if axis is not None:
        return _fallback_call(np.unique, (a,), dict(return_index=return_index, return_inverse=return_inverse,
                                                    return_counts=return_counts, axis=axis))
    f = a.ravel()
    ix = _idx_list(argsort(f))
    el = f.elems()
    first, inv, cnt = [], [0] * len(el), []
    for k, i in enumerate(ix):
        if k == 0 or not bool(scalar_eq(el[ix[k - 1]], el[i])):
            first.append(int(i))
            cnt.append(0)
        cnt[-1] += 1
        inv[i] = len(first) - 1
    r = [SArr(_d=f._d[np.asarray(first, dtype=int)], _dt=a._dt)]
    if return_index:
        r.append(from_real(np.asarray(first, dtype=np.int64)))
    if return_inverse:
        r.append(from_real(np.asarray(inv, dtype=np.int64)))
    if return_counts:
        r.append(from_real(np.asarray(cnt, dtype=np.int64)))
    return r[0] if len(r) == 1 else tuple(r)


def lexsort(keys, axis=-1):
    ks = [asarr(k) for k in keys]
    els = [k.elems() for k in ks][::-1]
    rows = [tuple(e[i] for e in els) for i in range(len(els[0]))]
    return from_real(np.asarray(argsort_list(rows), dtype=np.int64))


def arg_extreme(a, op, axis=None, keepdims=False):
    a = asarr(a)
    if keepdims:
        raise core.Inconclusive("argmax with keepdims")
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a._d, axis, -1)
        out = np.empty(m.shape[:-1], dtype=np.int64)
        for ix in np.ndindex(out.shape):
            out[ix] = arg_extreme(SArr(_d=m[ix], _dt=a._dt), op)
        return from_real(out)
    el = a.elems()
    if not el:
        raise ValueError("attempt to get argmax of an empty sequence")
    b = 0
    for i in range(1, len(el)):
        if bool(getattr(operator, op)(el[i], el[b])):
            b = i
    return np.int64(b)


# ------------------------------------------------------------ functions
def where_(c, *xy):
    c = asarr(c)
    if not xy:
        return nonzero(c)
    x, y = xy
    if hasattr(c, "_is_farr") or hasattr(x, "_is_farr") or hasattr(y, "_is_farr"):
        from . import farr
        return farr.where(c, x, y)
    x, y = _prep(x), _prep(y)
    # np.where uses value-based result_type
    dt = np.result_type(_dummy(x) if hasattr(x, "_is_sarr") or is_sym(x) else x,
                        _dummy(y) if hasattr(y, "_is_sarr") or is_sym(y) else y)
    X, Y = asarr(x), asarr(y)
    Bc, Bx, By = np.broadcast_arrays(c._d, X._d, Y._d)
    out = new_obj(Bc.shape)
    for ix in np.ndindex(Bc.shape):
        cc = _truth(typed(Bc[ix], c._dt))
        if isinstance(cc, SBool):
            v = ite(cc, cast_scalar(typed(Bx[ix], X._dt), dt), cast_scalar(typed(By[ix], Y._dt), dt))
        else:
            v = cast_scalar(typed(Bx[ix], X._dt), dt) if cc else cast_scalar(typed(By[ix], Y._dt), dt)
        out[ix] = raw(v)
    return SArr(_d=out, _dt=dt)


def nonzero(a):
    a = asarr(a)
    b = np.asarray([bool(_truth(x)) for x in a.elems()], dtype=bool).reshape(a.shape)
    return tuple(from_real(x) for x in np.nonzero(b))


def clip(a, a_min=None, a_max=None, min=None, max=None):
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    if a_min is None and a_max is None:
        raise ValueError("One of max or min must be given")
    r = a
    if a_min is not None:
        r = UF["maximum"](r, a_min)
    if a_max is not None:
        r = UF["minimum"](r, a_max)
    return r


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if x._dt.kind not in "iub":
        raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % x._dt)
    if x.ndim != 1:
        raise ValueError("object too deep for desired array")
    ix = _idx_list(astype(_safe_intp(x), np.int64))
    if len(ix) and ix.min() < 0:
        raise ValueError("'list' argument must have no negative elements")
    n = builtins.max(int(minlength), (int(ix.max()) + 1) if len(ix) else 0)
    if weights is None:
        return from_real(np.bincount(ix, minlength=int(minlength)))
    w = asarr(weights)
    out = zeros(n, dtype=float)
    UF["add"].at(out, from_real(ix), astype(w, np.dtype(float)))
    return out


def _safe_intp(a):
    """numpy converts counts and indexes to intp with safe casting (which excludes uint64)."""
    a = asarr(a)
    if a.ndim and not np.can_cast(a._dt, np.intp, "safe"):
        raise TypeError("Cannot cast array data from %r to dtype('int64') according to the rule 'safe'" % a._dt)
    return a


def repeat(a, repeats, axis=None):
    a = asarr(a)
    if hasattr(repeats, "_is_sarr") or hasattr(repeats, "dtype"):
        repeats = _safe_intp(repeats)
    r = _idx_list(asarr(repeats))
    return SArr(_d=np.repeat(a._d, r, axis=axis), _dt=a._dt)


def take(a, idx, axis=None, mode="raise"):
    a = asarr(a)
    if mode != "raise":
        n = a.size if axis is None else a.shape[axis]
        idx = UF["mod"](idx, n) if mode == "wrap" else clip(idx, 0, n - 1)
    elif hasattr(idx, "_is_sarr") or hasattr(idx, "dtype"):
        idx = _safe_intp(idx)
    if axis is None:
        return a.ravel()[asarr(idx)]
    if axis == 0:
        return a[asarr(idx)]
    return SArr(_d=np.take(a._d, _idx_list(asarr(idx)), axis=axis), _dt=a._dt)


def concatenate(xs, axis=0, dtype=None, casting=None):
    xs = [asarr(x) for x in xs]
    if axis is None:
        axis, xs = 0, [x.ravel() for x in xs]
    if xs and builtins.any(hasattr(x, "_is_farr") for x in xs):
        from . import farr
        return farr.concatenate(xs, axis)
    if not xs:
        raise ValueError("need at least one array to concatenate")
    dt = np.result_type(*[x._dt for x in xs]) if dtype is None else np.dtype(dtype)
    ys = [astype(x, dt)._d for x in xs]
    r = SArr(_d=np.concatenate(ys, axis=axis), _dt=dt)
    return _subcls(r, *xs)


def _structural(name):
    real = getattr(np, name)

    @functools.wraps(real)
    def f(*a, **k):
        dts = []

        def conv(x):
            if hasattr(x, "_is_farr"):
                x = x.to_sarr()
            if hasattr(x, "_is_sarr"):
                dts.append(x._dt)
                return x._d
            if isinstance(x, (list, tuple)) and _contains_sym(x):
                if builtins.all(is_sym(y) or isinstance(y, (int, float, np.generic)) for y in x):
                    z = asarr(x)
                    dts.append(z._dt)
                    return z._d
                ys = [asarr(y) for y in x]
                d = np.result_type(*[y._dt for y in ys])
                dts.append(d)
                return type(x)(astype(y, d)._d for y in ys)
            if isinstance(x, SInt):
                return int(x)
            return x
        aa = [conv(x) for x in a]
        kk = {n: conv(v) for n, v in k.items()}
        if not dts:
            return wrap_result(real(*aa, **kk))
        dt = dts[0] if len(dts) == 1 else np.result_type(*dts)

        def back(r):
            if isinstance(r, np.ndarray):
                if r.dtype == object or r.dtype.names:
                    return SArr(_d=r, _dt=dt)
                return from_real(r)
            if isinstance(r, (list, tuple)):
                return type(r)(back(y) for y in r)
            return r
        return back(real(*aa, **kk))
    return f


_STRUCT = ["reshape", "ravel", "swapaxes", "transpose", "moveaxis", "rollaxis", "squeeze", "expand_dims",
           "vstack", "hstack", "dstack", "column_stack", "stack", "row_stack", "split", "array_split",
           "hsplit", "vsplit", "roll", "flip", "fliplr", "flipud", "tile", "broadcast_to",
           "broadcast_arrays", "atleast_1d", "atleast_2d", "rot90", "ascontiguousarray_", "diagonal"]


def ascontiguousarray(a, dtype=None):
    a = asarr(a, dtype)
    if hasattr(a, "_is_farr"):
        return a.contiguous()
    if a.ndim == 0:
        return SArr(_d=a._d.reshape(1), _dt=a._dt)
    if a._d.flags.c_contiguous:
        return SArr(_d=a._d, _dt=a._dt) if type(a) is not SArr else a
    return SArr(_d=np.ascontiguousarray(a._d), _dt=a._dt)


def asfortranarray(a, dtype=None):
    a = asarr(a, dtype)
    return SArr(_d=np.asfortranarray(a._d), _dt=a._dt)


def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    r = asarr(x, dtype)
    if hasattr(r, "_is_farr"):
        return r.copy()
    if r is x or (hasattr(x, "_is_sarr") and np.shares_memory(r._d, x._d)):
        if copy:
            r = SArr(_d=r._d.copy(order="K" if order is None else order), _dt=r._dt)
    if type(r) is not SArr and not subok:
        r = SArr(_d=r._d, _dt=r._dt)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def np_asarray(x, dtype=None, order=None):
    r = asarr(x, dtype)
    if hasattr(r, "_is_farr"):
        return r
    if type(r) is not SArr:
        r = SArr(_d=r._d, _dt=r._dt)
    if order == "C" and not r._d.flags.c_contiguous:
        r = SArr(_d=np.ascontiguousarray(r._d), _dt=r._dt)
    if order == "F" and not r._d.flags.f_contiguous:
        r = SArr(_d=np.asfortranarray(r._d), _dt=r._dt)
    return r


def np_asanyarray(x, dtype=None, order=None):
    r = asarr(x, dtype)
    if hasattr(x, "_is_sarr") and type(x) is not SArr and type(r) is SArr:
        r = _as_subclass(r, type(x), x)
    return r


def _sym_shape(shape):
    if isinstance(shape, SInt):
        return True
    if isinstance(shape, (list, tuple)):
        return builtins.any(isinstance(s, SInt) for s in shape)
    return False


def empty(shape, dtype=float, order="C", **k):
    if _sym_shape(shape) and FARR_ON:
        from . import farr
        return farr.new(shape, np.dtype(dtype), None)
    return SArr(shape, dtype=dtype, order=order)


FARR_ON = False


def full(shape, fill_value, dtype=None, order="C", **k):
    dt = elem_dtype(fill_value) if dtype is None else np.dtype(dtype)
    if _sym_shape(shape) and FARR_ON:
        from . import farr
        return farr.new(shape, dt, fill_value)
    d = new_obj(norm_shape(shape), order=order, dt=dt)
    if dt.names:
        fill_obj(d, dt, fill_value)
    else:
        v = raw(_assign_cast(fill_value, dt))
        d[...] = _obj0(v) if is_sym(v) else (v if dt.kind not in "SUV" else v)
    return SArr(_d=d, _dt=dt)


def zeros(shape, dtype=float, order="C", **k):
    dt = np.dtype(dtype)
    if dt.names:
        return from_real(np.zeros(norm_shape(shape), dtype=dt))
    z = {"b": False, "S": b"", "U": "", "O": 0}.get(dt.kind, 0)
    if dt.kind == "f":
        z = 0.0
    if dt.kind in "SU":
        d = new_obj(norm_shape(shape))
        d[...] = z
        return SArr(_d=d, _dt=dt)
    return full(shape, z, dt, order)


def ones(shape, dtype=float, order="C", **k):
    dt = np.dtype(dtype)
    return full(shape, True if dt.kind == "b" else (1.0 if dt.kind == "f" else 1), dt, order)


def empty_like(a, dtype=None, order="K", subok=True, shape=None):
    a = asarr(a)
    dt = a.dtype if dtype is None else np.dtype(dtype)
    if hasattr(a, "_is_farr"):
        from . import farr
        return farr.new(a.shape if shape is None else shape, dt, None)
    if shape is not None and _sym_shape(shape) and FARR_ON:
        from . import farr
        return farr.new(shape, dt, None)
    sh = None if shape is None else norm_shape(shape)
    d = np.empty_like(a._d, dtype=objdtype(dt), order=order, shape=sh, subok=False)
    uninit_fill(d)
    return _subcls(SArr(_d=d, _dt=dt), a) if subok else SArr(_d=d, _dt=dt)


def full_like(a, v, dtype=None, order="K", subok=True, shape=None):
    r = empty_like(a, dtype, order, subok, shape)
    r[...] = v
    return r


def zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    r = empty_like(a, dtype, order, subok, shape)
    if r.dtype.names:
        return zeros(r.shape, r.dtype)
    r[...] = False if r.dtype.kind == "b" else 0
    return r


def ones_like(a, dtype=None, order="K", subok=True, shape=None):
    r = empty_like(a, dtype, order, subok, shape)
    r[...] = 1
    return r


def arange(*a, dtype=None, **k):
    for n in ("start", "stop", "step"):
        if n in k:
            raise core.Inconclusive("arange keywords")
    if FARR_ON and _contains_sym(list(a)):
        from . import farr
        return farr.arange(*a, dtype=dtype)
    if _contains_sym(list(a)):
        # symbolic start with concrete length stays symbolic
        if len(a) == 2:
            n = int(a[1] - a[0])
            dt = np.dtype(dtype) if dtype is not None else np.result_type(elem_dtype(a[0]), elem_dtype(a[1]))
            return asarr([a[0] + i for i in range(n)], dt) if n > 0 else zeros(0, dt)
        a = [concretize(x) for x in a]
    return from_real(np.arange(*[concretize(x) for x in a], dtype=dtype))


def isin(a, b, assume_unique=False, invert=False, **k):
    a, b = asarr(a), asarr(b)
    eb = b.elems()
    fl = [sor(*[scalar_eq(x, y) for y in eb]) for x in a.elems()]
    if invert:
        fl = [snot(x) for x in fl]
    d = new_obj(a.shape)
    df = d.reshape(-1)
    for i, v in enumerate(fl):
        df[i] = raw(v)
    return SArr(_d=d, _dt=bool)


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(sand(*[scalar_eq(x, y) for x, y in zip(a.elems(), b.elems())]))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (_has_sym_deep(a) or _has_sym_deep(b)):
        return _fallback_call(np.isclose, (a, b), dict(rtol=rtol, atol=atol, equal_nan=equal_nan))
    ab = UF["absolute"]
    return ab(a - b) <= (atol + rtol * ab(b) if atol else rtol * ab(b))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return bool(r.all() if hasattr(r, "_is_sarr") or isinstance(r, np.ndarray) else r)


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    if n == 0:
        return a

    def end(x):
        x = asarr(x)
        if x.ndim == 0:
            sh = list(a.shape)
            sh[axis] = 1
            x = SArr(_d=np.broadcast_to(x._d, sh), _dt=x._dt)
        return x
    if prepend is not None or append is not None:
        a = concatenate(([] if prepend is None else [end(prepend)]) + [a] +
                        ([] if append is None else [end(append)]), axis=axis)
    hi, lo = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    hi[axis], lo[axis] = slice(1, None), slice(None, -1)
    for _ in range(n):
        a = a[tuple(hi)] != a[tuple(lo)] if a._dt.kind == "b" else a[tuple(hi)] - a[tuple(lo)]
    return a


def floor_(a, *r, **k):
    a = _prep(a)
    if hasattr(a, "_is_sarr") and a.has_sym() and a._dt.kind == "f":
        return _map1(lambda x: SReal(z3.ToReal(z3.ToInt(x.t)), a._dt) if isinstance(x, SReal) else np.floor(x), a, a._dt)
    if isinstance(a, SReal):
        return SReal(z3.ToReal(z3.ToInt(a.t)), a.dt)
    if isinstance(a, SInt):
        return cast_scalar(a, np.dtype(float))
    if hasattr(a, "_is_sarr") and a.has_sym():
        return astype(a, np.dtype(float))
    return _fallback_call(np.floor, (a,) + r, k)


def _classify(name, symval):
    """isfinite etc.: symbolic reals are finite numbers."""
    fn = getattr(np, name)

    def one(x):
        return symval if is_sym(x) else fn(x)

    def f(a, *r, **k):
        if is_sym(a):
            return np.bool_(symval)
        if _has_sym_deep(a):
            a = asarr(a)
            return _map1(one, a, np.dtype(bool))
        return _fallback_call(fn, (a,) + r, k)
    return functools.wraps(fn)(f)


def ceil_(a, *r, **k):
    if _has_sym_deep(a):
        return -floor_(-a)
    return _fallback_call(np.ceil, (a,) + r, k)


def copy_(a, order="K", subok=False):
    a = asarr(a)
    return SArr(_d=a._d.copy(order), _dt=a._dt) if not hasattr(a, "_is_farr") else a.copy()


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        m = asarr(where)
        dst[m] = asarr(src)[m] if hasattr(src, "_is_sarr") and src.ndim else src


def append(arr, values, axis=None):
    a, v = asarr(arr), asarr(values)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis)


def may_share_memory(a, b, **k):
    return np.shares_memory(a._d, b._d)


def shape_(a):
    return asarr(a).shape


def indices_(dimensions, dtype=int, sparse=False):
    return from_real(np.indices(norm_shape(dimensions), dtype=dtype))


def isscalar(x):
    return is_sym(x) or np.isscalar(x)


def split_result(*a):
    return a


def compress(cond, a, axis=None, out=None):
    a = asarr(a)
    return a[asarr(cond)] if axis in (None, 0) else _fallback_call(np.compress, (cond, a, axis), {})


def count_nonzero(a, axis=None, keepdims=False):
    a = asarr(a)
    if axis is not None or keepdims:
        return sum_(a != 0 if a._dt.kind != "b" else a, axis, dtype=np.intp, keepdims=keepdims)
    el = [_truth(x) for x in a.elems()]
    n = 0
    for x in el:
        n = n + (x.as_int() if isinstance(x, SBool) else int(x))
    return n


def cumprod(a, axis=None, dtype=None):
    a = asarr(a)
    return accumulate("mul", a.ravel() if axis is None else a, 0 if axis is None else axis, dtype)


def select(condlist, choicelist, default=0):
    r = default
    for c, x in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = where_(c, x, r)
    return r


def frombuffer(buf, dtype=float, count=-1, offset=0):
    from . import fakeio
    return fakeio.frombuffer(buf, np.dtype(dtype), count, offset)


def fromfile(file, dtype=float, count=-1, sep="", offset=0):
    from . import fakeio
    return fakeio.fromfile(file, np.dtype(dtype), count, sep, offset)


def mod_float(f):
    return f


def _with_out(fn):
    """Add numpy's out= parameter (the result is stored in the array given, which is returned)."""
    @functools.wraps(fn)
    def f(*a, **k):
        out = k.pop("out", None)
        r = fn(*a, **k)
        if out is None or out is r:
            return r
        if isinstance(out, tuple):
            out, = out
        out[...] = r
        return out
    return f


UF = {}
for _name, _op, _nin in (("add", "add", 2), ("subtract", "sub", 2), ("multiply", "mul", 2),
                         ("floor_divide", "floordiv", 2), ("remainder", "mod", 2), ("mod", "mod", 2),
                         ("true_divide", "truediv", 2), ("divide", "truediv", 2), ("left_shift", "lshift", 2),
                         ("right_shift", "rshift", 2), ("bitwise_and", "and_", 2), ("bitwise_or", "or_", 2),
                         ("bitwise_xor", "xor", 2), ("power", "pow", 2), ("less", "lt", 2),
                         ("less_equal", "le", 2), ("greater", "gt", 2), ("greater_equal", "ge", 2),
                         ("equal", "eq", 2), ("not_equal", "ne", 2), ("maximum", "maximum", 2),
                         ("minimum", "minimum", 2), ("fmax", "fmax", 2), ("fmin", "fmin", 2),
                         ("logical_and", "logical_and", 2), ("logical_or", "logical_or", 2),
                         ("logical_xor", "logical_xor", 2), ("negative", "neg", 1), ("absolute", "abs", 1),
                         ("abs", "abs", 1), ("invert", "invert", 1), ("bitwise_not", "invert", 1),
                         ("logical_not", "logical_not", 1), ("positive", "pos", 1)):
    UF[_name] = Ufunc(_name, _op, getattr(np, _name), _nin)

TABLE = dict(UF)
TABLE.update({n: _structural(n) for n in _STRUCT if hasattr(np, n)})
TABLE.update(dict(
    ndarray=SArr, ufunc=Ufunc, array=array, asarray=np_asarray, asanyarray=np_asanyarray,
    ascontiguousarray=ascontiguousarray, asfortranarray=asfortranarray, empty=empty, zeros=zeros, ones=ones,
    full=full, empty_like=empty_like, zeros_like=zeros_like, ones_like=ones_like, full_like=full_like,
    arange=arange, sum=sum_, any=any_, all=all_, cumsum=cumsum, cumprod=cumprod, mean=mean,
    prod=lambda a, axis=None, dtype=None, **k: reduce_("mul", a, axis, dtype, **k),
    amax=lambda a, axis=None, **k: reduce_("maximum", a, axis, None, **k),
    amin=lambda a, axis=None, **k: reduce_("minimum", a, axis, None, **k),
    argsort=argsort, sort=sort, searchsorted=searchsorted, unique=unique, lexsort=lexsort,
    argmax=lambda a, axis=None, **k: arg_extreme(a, "gt", axis, **k), argmin=lambda a, axis=None, **k: arg_extreme(a, "lt", axis, **k),
    where=where_, nonzero=nonzero, flatnonzero=lambda a: nonzero(asarr(a).ravel())[0],
    clip=clip, bincount=bincount, repeat=repeat, take=take, concatenate=concatenate, isin=isin, in1d=isin,
    array_equal=array_equal, diff=diff, floor=floor_, ceil=ceil_, copy=copy_, copyto=copyto, append=append,
    shares_memory=may_share_memory, may_share_memory=may_share_memory, shape=shape_, indices=indices_,
    isscalar=isscalar, count_nonzero=count_nonzero, select=select, compress=compress, frombuffer=frombuffer, fromfile=fromfile,
    ndim=lambda a: asarr(a).ndim, size=lambda a, axis=None: asarr(a).size if axis is None else asarr(a).shape[axis],
    len=None, isclose=isclose, allclose=allclose, isfinite=_classify("isfinite", True), isnan=_classify("isnan", False), isinf=_classify("isinf", False),
))
from . import npextra      # noqa (needs the functions above)
TABLE.update(npextra.FUNCS)
for _n in ("sum prod amax amin any all mean cumsum cumprod argmax argmin clip take concatenate stack round around rint "
           "choose compress dot matmul trace median").split():
    if _n in TABLE and not isinstance(TABLE[_n], Ufunc):
        TABLE[_n] = _with_out(TABLE[_n])
TABLE["max"] = TABLE["amax"]
TABLE["min"] = TABLE["amin"]
del TABLE["len"]

_PASS = {"dtype", "result_type", "can_cast", "promote_types", "finfo", "iinfo", "errstate", "seterr",
         "ndindex", "issubdtype", "min_scalar_type", "binary_repr", "base_repr", "set_printoptions",
         "get_printoptions"}


class _ScalarMeta(type):
    """Numpy scalar types as the code under test sees them: np.int64(x) of a symbolic x stays symbolic."""

    def __call__(cls, *a, **k):
        real = cls._real
        if len(a) == 1 and not k:
            x = a[0]
            if is_sym(x) and real is not np.bool_:
                return typed(cast_scalar(raw(x), np.dtype(real)), np.dtype(real))
            if isinstance(x, SArr):
                r = x.astype(real)
                return r._scalar0() if r.ndim == 0 else r
            if isinstance(x, (list, tuple)) and any(is_sym(y) or isinstance(y, SArr) for y in x):
                return asarr(x).astype(real)
        return real(*a, **k)

    def __instancecheck__(cls, o):
        if is_sym(o):
            dt = getattr(o, "dt", None)
            return dt is not None and dt.type is cls._real
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "_real", c), cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real or getattr(o, "_real", None) is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


def _scalar_proxy(t):
    return _ScalarMeta(t.__name__, (t,), dict(_real=t, __module__="numpy", __qualname__=t.__name__))


_PROXY = {}
for _n in ("int8 int16 int32 int64 uint8 uint16 uint32 uint64 float32 float64 intc uintc intp uintp int_ uint byte ubyte "
           "short ushort longlong ulonglong double single float_").split():
    _t = getattr(np, _n)
    if _t not in _PROXY:
        _PROXY[_t] = _scalar_proxy(_t)
    TABLE[_n] = _PROXY[_t]


class NumpyModule(types.ModuleType):
    """What the code under test gets from `import numpy`."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["__all__"] = list(np.__all__)
        self.__dict__["__version__"] = np.__version__
        for n, v in TABLE.items():
            self.__dict__[n] = v

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, np.ufunc):
            u = _fallback_ufunc(name, v)
            self.__dict__[name] = u
            return u
        if isinstance(v, type) or name in _PASS or not callable(v):
            if name == "random":
                return v
            return v

        @functools.wraps(v)
        def f(*a, **k):
            return _fallback_call(v, a, k)
        self.__dict__[name] = f
        return f


def _fallback_ufunc(name, v):
    u = Ufunc(name, name, v, v.nin)

    def call(*a, **k):
        return _fallback_call(v, a, k)
    c = type("FbUfunc", (Ufunc,), {"__call__": lambda self, *a, **k: call(*a, **k),
                                   "at": lambda self, arr, idx, *b: _fb_at(v, arr, idx, *b)})
    u.__class__ = c
    return u


def _fb_at(v, arr, idx, *b):
    r = concretize(arr)
    v.at(r, concretize(asarr(idx)), *[concretize(x) for x in b])
    arr[...] = from_real(r)


NP = NumpyModule()
