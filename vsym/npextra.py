"""Further numpy functions for symbolic arrays, in terms of those of sarr."""
import numpy as np

from . import core
from . import sarr as S
from .scalars import cast_scalar, is_sym, scalar_eq, ite


def A(x, dtype=None):
    r = S.asarr(x, dtype)
    return r.to_sarr() if hasattr(r, "_is_farr") else r


def _f(name):
    return S.TABLE[name]


def _lift(name):
    """A function which only moves elements: numpy's applied to positions."""
    real = getattr(np, name)

    def f(a, *args, **k):
        a = A(a)
        ix = np.arange(a.size).reshape(a.shape)
        r = real(ix, *[S.concretize(x) for x in args], **{n: S.concretize(v) for n, v in k.items()})
        return S.SArr(_d=a._d.reshape(-1)[r], _dt=a._dt)
    f.__name__ = name
    return f


delete = _lift("delete")
resize = _lift("resize")


def argwhere(a):
    r = S.nonzero(A(a))
    return _f("stack")([A(x) for x in r], axis=-1)


def extract(cond, a):
    return A(a).ravel()[A(cond).ravel() != 0]


def put(a, idx, v, mode="raise"):
    v = A(v)
    f = a.reshape(-1)
    for k, i in enumerate(S._idx_list(A(idx)).reshape(-1)):
        f[int(i)] = v.ravel()[k % v.size]
    if not S.may_share_memory(f, a):
        a[...] = f.reshape(a.shape)


def putmask(a, mask, v):
    v = A(v).ravel()
    if v.size == 0:
        return
    m = A(mask)
    w = S.SArr(_d=v._d[np.arange(a.size) % v.size].reshape(a.shape), _dt=v._dt)
    a[...] = S.where_(m, S.astype(w, a._dt), a)


def place(a, mask, v):
    i = S._idx_list(S.nonzero(A(mask).ravel())[0])
    if len(i):
        v = A(v).ravel()
        put(a, i, S.SArr(_d=v._d[np.arange(len(i)) % v.size], _dt=v._dt))


def take_along_axis(a, idx, axis):
    a = A(a)
    if axis is None:
        return a.ravel()[A(idx).ravel()]
    return S.SArr(_d=np.take_along_axis(a._d, S._idx_list(A(idx)), axis), _dt=a._dt)


def put_along_axis(a, idx, v, axis):
    ix = S._idx_list(A(idx))
    pos = np.take_along_axis(np.arange(a.size).reshape(a.shape), ix, axis)
    v = A(v)
    put(a, pos.reshape(-1), S.SArr(_d=np.broadcast_to(v._d, pos.shape).reshape(-1), _dt=v._dt))


def insert(a, where, v, axis=None):
    a = A(a)
    if axis not in (None, 0) or (axis is None and a.ndim > 1 and False):
        raise core.Inconclusive("insert along axis %s" % axis)
    a = a if axis == 0 or a.ndim == 1 else a.ravel()
    v = S.astype(A(v), a._dt)
    if a.ndim != 1:
        raise core.Inconclusive("insert nd")
    w = S.concretize(where)
    nv = 1 if v.ndim == 0 else v.size
    pos = np.insert(np.arange(a.size), w, -1 - np.arange(nv) if v.ndim else -1)
    d = S.new_obj((len(pos),))
    for k, p in enumerate(pos):
        d[k] = a._d[p] if p >= 0 else v._d.reshape(-1)[-1 - p]
    return S.SArr(_d=d, _dt=a._dt)


def divmod_(a, b):
    return a // b, a % b


def _member(a, b, inv):
    return a[S.isin(a, b, invert=inv)]


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        a, b = A(a).ravel(), A(b).ravel()
        u, i = S.unique(a, return_index=True)
        w, j = S.unique(b, return_index=True)
        m = S.isin(u, w)
        n = S.isin(w, u)
        return u[m], i[m], j[n]
    return _member(S.unique(A(a)), A(b).ravel(), False)


def union1d(a, b):
    return S.unique(S.concatenate([A(a).ravel(), A(b).ravel()]))


def setdiff1d(a, b, assume_unique=False):
    return _member(A(a).ravel() if assume_unique else S.unique(A(a)), A(b).ravel(), True)


def setxor1d(a, b, assume_unique=False):
    return S.sort(S.concatenate([setdiff1d(a, b), setdiff1d(b, a)]))


def digitize(x, bins, right=False):
    b = A(bins)
    inc = len(b) < 2 or bool(b[0] <= b[-1])
    if inc:
        return S.searchsorted(b, x, side="left" if right else "right")
    return len(b) - A(S.searchsorted(b[::-1], x, side="right" if right else "left"))


def ediff1d(a, to_end=None, to_begin=None):
    a = A(a).ravel()
    parts = [a[1:] - a[:-1]]
    if to_begin is not None:
        parts.insert(0, S.astype(A(to_begin).ravel(), a._dt))
    if to_end is not None:
        parts.append(S.astype(A(to_end).ravel(), a._dt))
    return S.concatenate(parts)


def dot(a, b, out=None):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return S.sum_(a * b, axis=None if a.ndim == 1 else -1, dtype=S.result_dtype("mul", a, b))
    if a.ndim == 1:
        return S.sum_(a.reshape((-1, 1)) * b, axis=0, dtype=S.result_dtype("mul", a, b))
    if a.ndim == 2 and b.ndim == 2:
        return _f("stack")([dot(r, b) for r in a])
    raise core.Inconclusive("dot nd")


def partition(a, kth, axis=-1, kind=None, order=None):
    return S.sort(a, axis)


def argpartition(a, kth, axis=-1, kind=None, order=None):
    return S.argsort(a, axis)


def fromiter(it, dtype, count=-1):
    x = list(it)
    if count >= 0:
        if len(x) < count:
            raise ValueError("iterator too short: Expected %d but iterator had only %d items." % (count, len(x)))
        x = x[:count]
    return S.array(x, dtype) if x else S.zeros(0, dtype)


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    xs = [A(x).ravel() for x in xs]
    ix = np.meshgrid(*[np.arange(x.size) for x in xs], indexing=indexing, sparse=sparse)
    return [S.SArr(_d=x._d[i], _dt=x._dt) for x, i in zip(xs, ix)]


def ravel_multi_index(multi, dims, mode="raise", order="C"):
    if order != "C" or mode != "raise":
        raise core.Inconclusive("ravel_multi_index")
    r = 0
    for x, n in zip(multi, dims):
        x = A(x) if not S.is_sym(x) else x
        if not bool(S.all_((x >= 0) & (x < n))):
            raise ValueError("invalid entry in coordinates array")
        r = r * n + x
    return r


def unravel_index(i, shape, order="C"):
    shape = (shape,) if np.ndim(shape) == 0 else tuple(shape)
    out = []
    i = A(i) if not S.is_sym(i) else i
    n = int(np.prod(shape, dtype=int))
    if not bool(S.all_((i >= 0) & (i < n))):
        raise ValueError("index is out of bounds for array with size %d" % n)
    for n in reversed(shape):
        out.append(i % n)
        i = i // n
    return tuple(reversed(out))


def ptp(a, axis=None):
    return S.reduce_("maximum", a, axis) - S.reduce_("minimum", a, axis)


def square(a, **k):
    return a * a


def sign(a):
    a = A(a)
    r = S.where_(a > 0, S.ones((), a._dt), S.where_(a < 0, S.astype(A(-1), a._dt), S.zeros((), a._dt)))
    return r


def vectorize(fn=None, otypes=None, **k):
    def call(*xs):
        xs = S.TABLE["broadcast_arrays"](*[A(x) for x in xs])
        r = [fn(*t) for t in zip(*[x.elems() for x in xs])]
        r = S.array(r, otypes[0] if otypes else None) if r else S.zeros(0, otypes[0] if otypes else float)
        return r.reshape(xs[0].shape)
    return call


def apply_along_axis(fn, axis, a, *args, **k):
    a = A(a)
    axis %= a.ndim
    if a.ndim == 1:
        return fn(a, *args, **k)
    m = _f("moveaxis")(a, axis, -1)
    rows = [fn(r, *args, **k) for r in m.reshape((-1, m.shape[-1]))]
    r = _f("stack")([A(x) for x in rows])
    r = r.reshape(tuple(m.shape[:-1]) + tuple(r.shape[1:]))
    return _f("moveaxis")(r, -1, axis) if r.ndim == a.ndim else r


def choose(a, choices, out=None, mode="raise"):
    a = A(a)
    cs = [A(c) for c in choices]
    if not bool(S.all_((a >= 0) & (a < len(cs)))):
        raise ValueError("invalid entry in choice array")
    r = cs[-1]
    for i in range(len(cs) - 2, -1, -1):
        r = S.where_(a == i, cs[i], r)
    return r


def trim_zeros(a, trim="fb"):
    a = A(a)
    i, j = 0, len(a)
    if "f" in trim.lower():
        while i < j and bool(a[i] == 0):
            i += 1
    if "b" in trim.lower():
        while j > i and bool(a[j - 1] == 0):
            j -= 1
    return a[i:j]


def ndenumerate(a):
    a = A(a)
    for ix in np.ndindex(a.shape):
        yield ix, a[ix]


def ix_(*xs):
    out = []
    for k, x in enumerate(xs):
        x = A(x)
        if x._dt.kind == "b":
            x = S.nonzero(x)[0]
        out.append(A(x).reshape((1,) * k + (len(x),) + (1,) * (len(xs) - k - 1)))
    return tuple(out)


class _Join:
    """np.r_ and np.c_"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for k in key:
            if isinstance(k, str):
                raise core.Inconclusive("np.r_ with a string")
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    raise core.Inconclusive("np.r_ with a complex step")
                k = S.TABLE["arange"](0 if k.start is None else k.start, k.stop, 1 if k.step is None else k.step)
            parts.append(A(k))
        scal = [p for p in parts if p.ndim == 0]
        arrs = [p for p in parts if p.ndim]
        dt = np.result_type(*[p._dt for p in arrs]) if arrs else np.result_type(*[p._dt for p in scal])
        parts = [S.astype(p, dt).reshape((1,)) if p.ndim == 0 else p for p in parts]
        if self.cols:
            parts = [p.reshape((-1, 1)) if p.ndim == 1 else p for p in parts]
            return S.concatenate(parts, axis=-1)
        return S.concatenate(parts)


def fromarrays(arrays, dtype=None, names=None, **k):
    arrays = [A(a) for a in arrays]
    if dtype is None:
        names = names.split(",") if isinstance(names, str) else names
        dtype = np.dtype([(n.strip(), a._dt) for n, a in zip(names, arrays)])
    r = S.empty(arrays[0].shape, np.dtype(dtype))
    for n, a in zip(np.dtype(dtype).names, arrays):
        r[n] = a
    return r


def pad(a, width, mode="constant", constant_values=0):
    a = A(a)
    if mode != "constant":
        raise core.Inconclusive("np.pad mode %s" % mode)

    def pairs(x):
        if not isinstance(x, (list, tuple)):
            return [(x, x)] * a.ndim
        x = [tuple(y) if isinstance(y, (list, tuple)) else y for y in x]
        if all(isinstance(y, tuple) for y in x):
            return [y if len(y) == 2 else y * 2 for y in (x if len(x) == a.ndim else x * a.ndim)]
        return [tuple(x) if len(x) == 2 else tuple(x) * 2] * a.ndim
    for ax, ((lo, hi), (v0, v1)) in enumerate(zip(pairs(width), pairs(constant_values))):
        sh = list(a.shape)
        parts = []
        for n, v in ((int(lo), v0), (int(hi), v1)):
            sh[ax] = n
            parts.append(S.full(tuple(sh), v, dtype=a._dt))
        a = S.concatenate([parts[0], a, parts[1]], axis=ax)
    return a


def outer(a, b):
    return A(a).ravel().reshape((-1, 1)) * A(b).ravel().reshape((1, -1))


def _tri(name):
    def f(m, k=0):
        m = A(m)
        keep = getattr(np, name)(np.ones(m.shape[-2:], dtype=bool), k)
        return S.where_(A(keep), m, S.zeros((), m._dt))
    return f


def trace(a, offset=0):
    return S.sum_(S.TABLE["diagonal"](A(a), offset))


def median(a, axis=None):
    a = A(a)
    if axis is not None and a.ndim > 1:
        raise core.Inconclusive("median along an axis")
    b = a.ravel().copy()
    b.sort()
    n = len(b)
    if n == 0:
        return np.float64("nan")
    return S.mean(b[n // 2:n // 2 + 1] if n % 2 else b[n // 2 - 1:n // 2 + 1])


def block(xs):
    if any(isinstance(x, list) for x in xs):
        return S.concatenate([block(x) for x in xs], axis=-2)
    return S.concatenate([_f("atleast_1d")(A(x)) for x in xs], axis=-1)


def require(a, dtype=None, requirements=None):
    return S.np_asanyarray(a, dtype)


def _isnan_free(op):
    def f(a, axis=None, **k):
        a = A(a)
        if a._dt.kind not in "iub":
            raise core.Inconclusive("nan functions of floats")
        return S.TABLE[op](a, axis=axis, **k)
    return f


def mget(name):
    """Methods of arrays which are functions here."""
    return METHODS.get(name)


METHODS = dict(compress=lambda a, c, axis=None: S.compress(c, a, axis), put=put, dot=dot, ptp=ptp,
               itemset=lambda a, *k: a.__setitem__(k[:-1] if len(k) > 2 else (k[0] if len(k) == 2 else ()), k[-1])
               if a.ndim <= 1 or len(k) > 2 else put(a, [k[0]], [k[1]]),
               partition=lambda a, kth, axis=-1, **k: a.sort(axis), argpartition=argpartition,
               choose=lambda a, c, **k: choose(a, c), diagonal=lambda a, *k: S.TABLE["diagonal"](a, *k))

FUNCS = dict(pad=pad, outer=outer, triu=_tri('triu'), tril=_tri('tril'), trace=trace, median=median, block=block,
             require=require, nancumsum=_isnan_free('cumsum'), nanmean=_isnan_free('mean'), delete=delete, resize=resize, argwhere=argwhere, extract=extract, put=put, putmask=putmask, place=place,
             take_along_axis=take_along_axis, put_along_axis=put_along_axis, insert=insert, divmod=divmod_,
             intersect1d=intersect1d, union1d=union1d, setdiff1d=setdiff1d, setxor1d=setxor1d, digitize=digitize,
             ediff1d=ediff1d, dot=dot, vdot=dot, inner=lambda a, b: dot(a, b) if A(b).ndim < 2 else dot(a, A(b).T),
             matmul=dot, partition=partition, argpartition=argpartition, fromiter=fromiter, meshgrid=meshgrid,
             ravel_multi_index=ravel_multi_index, unravel_index=unravel_index, ptp=ptp, square=square, sign=sign,
             vectorize=vectorize, apply_along_axis=apply_along_axis, choose=choose, trim_zeros=trim_zeros,
             ndenumerate=ndenumerate, ix_=ix_, r_=_Join(False), c_=_Join(True), nanmax=_isnan_free("amax"),
             nanmin=_isnan_free("amin"), nansum=_isnan_free("sum"))


class _Rec:
    fromarrays = staticmethod(fromarrays)

    def __getattr__(self, n):
        return getattr(np.rec, n)


FUNCS["rec"] = _Rec()
