"""Self-test of the numpy stand-in: every expression below is evaluated with the real numpy, with the stand-in on ordinary
values and with the stand-in on symbolic values pinned to the same numbers; the three have to agree.
Usage: /opt/venv/bin/python tools/npdiff.py [-v]"""
import os
import sys
import itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vsym.core as core
from vsym import sarr, harness
import numpy as np

NP = sarr.NP
VALS = [
    dict(x=("i8", [3, -1, 4, 1, -5]), y=("i8", [2, 7, 1, 8, 2]), u=("u1", [200, 0, 255, 3, 9]), i=("i4", [5, 3, 5, -7, 0]),
         f=("f8", [0.5, -1.25, 3.0, 0.0, 2.75]), b=("b1", [1, 0, 1, 1, 0]), m=("i8", [[1, 5, 3], [4, -2, 6]]),
         s=("i8", [1, 2, 2, 5, 9]), n=("i8", [2, 0, 1, 0, 3]), e=("i8", []), one=("i8", [7])),
    dict(x=("i8", [0, 0, 0, 0, 0]), y=("i8", [1, 1, 1, 1, 1]), u=("u1", [1, 1, 1, 1, 1]), i=("i4", [-1, -1, 2, 2, 2]),
         f=("f8", [1.0, 1.0, 1.0, -2.0, 1.5]), b=("b1", [0, 0, 0, 0, 0]), m=("i8", [[0, 0, 1], [1, 0, 0]]),
         s=("i8", [-3, -3, 0, 0, 4]), n=("i8", [0, 0, 0, 0, 0]), e=("i8", []), one=("i8", [-7])),
]
EXPRS = r"""
np.cumsum(x)
np.cumsum(x, dtype=np.int32)
np.cumsum(m, axis=1)
np.cumsum(m)
_out(np.cumsum, x[:-1], np.zeros(6, dtype=int)[1:5])
_outv(np.cumsum, n[:-1], np.zeros(5, dtype=int))
np.cumsum(n) - n
np.cumsum(b)
np.cumsum(u)
np.cumsum(i)
x.cumsum()
x.cumsum(out=np.zeros(5, dtype=int))
np.add.accumulate(x)
np.maximum.accumulate(x)
np.minimum.accumulate(x)
np.sum(x)
np.sum(u)
np.sum(i)
np.sum(b)
np.sum(f)
np.sum(m, axis=0)
np.sum(m, axis=1, keepdims=True)
np.sum(m, axis=-1)
np.sum(m, axis=(0,1))
np.sum(x, dtype=np.int32)
np.sum(x, initial=5)
np.sum(x, where=b)
x.sum(initial=3)
x.sum(where=b)
m.sum(axis=0)
m.sum(0)
m.sum(keepdims=True)
m.max(axis=0)
m.max(0)
m.max(1)
m.min(axis=1)
np.max(m, axis=0)
np.amax(x)
np.amin(x)
np.max(x, initial=100)
np.min(x, initial=-100, where=b)
np.max(e, initial=0)
np.prod(x)
np.prod(m, axis=1)
np.prod((2,3,4))
np.prod(())
np.prod((), dtype=int)
np.prod(m.shape[1:], dtype=np.int64)
x.prod()
m.prod(axis=0)
np.any(x > 3)
np.any(m > 3, axis=0)
np.all(m > -3, axis=1)
np.all(m > -9)
np.any(e)
np.all(e)
(m > 0).any(axis=0)
(m > 0).all(axis=1)
(x > 0).any()
np.mean(f)
np.mean(m, axis=0)
f.mean()
np.argmax(x)
np.argmin(x)
np.argmax(b)
np.argmax(m)
np.argmax(m, axis=1)
np.argmin(m, axis=0)
x.argmax()
m.argmax(axis=1)
m.argmin(0)
np.argsort(x, kind='mergesort')
np.argsort(x, kind='stable')
np.argsort(-x, kind='stable')
np.argsort(s, kind='stable')
np.argsort(m, axis=1, kind='stable')
np.argsort(m, axis=0, kind='stable')
np.sort(x)
np.sort(m)
np.sort(m, axis=0)
np.sort(m, axis=None)
np.sort(x)[::-1]
np.lexsort((x, n))
np.lexsort((-x, n))
np.searchsorted(s, x)
np.searchsorted(s, x, side='right')
np.searchsorted(s, 2)
np.searchsorted(s, 2, 'right')
np.searchsorted(s, [2, 3])
np.searchsorted(x, y, sorter=np.argsort(x))
s.searchsorted(x)
s.searchsorted(x, 'right')
np.searchsorted(s, e)
np.searchsorted(e, x)
np.unique(x)
np.unique(s)
np.unique(s, return_counts=True)
np.unique(s, return_index=True)
np.unique(s, return_inverse=True)
np.unique(s, return_index=True, return_inverse=True, return_counts=True)
np.unique(e, return_counts=True)
np.unique(m)
np.bincount(n)
np.bincount(n, minlength=6)
np.bincount(n, weights=f)
np.bincount(n, weights=x)
np.bincount(e, minlength=3)
np.repeat(x, n)
np.repeat(x, 2)
np.repeat(m, 2, axis=0)
np.repeat(m, [1, 2], axis=0)
np.repeat(m, 2)
np.repeat(7, 3)
np.repeat(b, n)
np.tile(x, 2)
np.tile([False, True], 3)
np.tile(x, (2, 1))
np.concatenate((x, y))
np.concatenate([x, e])
np.concatenate((m, m), axis=1)
np.concatenate((x, f))
np.concatenate((u, i))
np.concatenate(([0], x))
np.append(x, 5)
np.append(x, y)
np.append(m, m, axis=0)
np.append(x, [1.5])
np.insert(x, 0, 0)
np.insert(x, [1, 2], [8, 9])
np.insert(x, 5, 3)
np.delete(x, 0)
np.delete(x, [0, 2])
np.delete(x, -1)
np.delete(m, 0, axis=1)
np.diff(x)
np.diff(x, n=2)
np.diff(x, prepend=0)
np.diff(x, append=9)
np.diff(x, prepend=0, append=9)
np.diff(m)
np.diff(m, axis=0)
np.diff(u)
np.diff(b)
np.ediff1d(x)
np.ediff1d(x, to_begin=0, to_end=[1, 2])
np.where(x > 0)
np.where(x > 0)[0]
np.where(x > 0, x, y)
np.where(x > 0, 1, 0)
np.where(x > 0, x, 0.5)
np.where(b, u, i)
np.where(m > 0)
np.where(m > 0, m, 0)
np.where(x[0] > 2, x, y)
np.nonzero(x)
np.nonzero(m)
np.flatnonzero(x)
np.flatnonzero(m)
np.argwhere(x > 0)
np.argwhere(m > 0)
np.count_nonzero(x)
np.count_nonzero(m > 0, axis=1)
np.count_nonzero(m > 0)
np.clip(x, 0, 3)
np.clip(x, 0, None)
np.clip(x, None, 2)
np.clip(x, a_min=None, a_max=2)
np.clip(x, y, 5)
_out(lambda a, out: np.clip(a, 0, 2, out=out), x, np.zeros(5, dtype=int))
x.clip(0)
x.clip(min=0)
x.clip(max=2)
x.clip(0, 2)
np.take(x, [0, 2])
np.take(m, [0, 2], axis=1)
np.take(m, [0, 5])
np.take(x, n)
np.take(x, [7], mode='clip')
np.take(x, [7], mode='wrap')
x.take([1, 1])
m.take([1], axis=0)
np.take_along_axis(m, np.argsort(m, axis=1), axis=1)
np.isin(x, y)
np.isin(x, y, invert=True)
np.in1d(x, y)
np.isin(m, [1, 4])
np.array_equal(x, x)
np.array_equal(x, y)
np.array_equal(x, e)
np.full(4, 7)
np.full((2, 3), -1, dtype='i4')
np.full(3, x[0])
np.full(3, 1.5)
np.full_like(x, -1)
np.full_like(x, -1, dtype=np.int32)
np.full_like(x, 2, shape=3)
np.full_like(m, 2, shape=(2,))
np.zeros(3)
np.zeros(3, int)
np.zeros((2, 3), dtype=np.int32)
np.zeros_like(x)
np.zeros_like(m, dtype=float)
np.zeros_like(x, shape=(2, 2))
np.ones(3, dtype=np.int64) * x[0]
np.ones_like(m)
np.arange(3)
np.arange(2, 5)
np.arange(5, 1, -2)
np.arange(3, dtype=np.int32)
np.arange(3) + x[0]
np.arange(1.5, 4)
np.arange(x[0], x[0] + 3)
np.arange(n[0])
np.linspace(0, 1, 3)
np.eye(2)
np.identity(2, dtype=int)
np.reshape(m, (3, 2))
np.reshape(m, -1)
m.reshape(3, 2)
m.reshape((-1,))
m.reshape(-1, 2)
m.T
m.transpose()
np.transpose(m, (1, 0))
m.ravel()
m.flatten()
m.ravel(order='F')
m.reshape((3, 2), order='F')
m.swapaxes(0, 1)
np.swapaxes(m, 0, 1)
np.moveaxis(m, 0, -1)
np.rollaxis(m, 1)
np.expand_dims(x, 0)
np.expand_dims(x, -1)
np.squeeze(x[None, :])
x[None, :].squeeze()
x[:, None]
x[:, np.newaxis] + y
np.atleast_1d(x[0])
np.atleast_2d(x)
np.stack([x, y])
np.stack([x, y], axis=1)
np.stack((x, y), axis=-1)
np.vstack((x, y))
np.hstack((x, y))
np.column_stack((x, y))
np.dstack((x, y))
np.column_stack((x, y)).ravel()
np.split(x[:4], 2)
np.split(x, [1, 3])
np.array_split(x, 3)
np.flip(x)
np.flip(m, axis=1)
np.flipud(m)
np.fliplr(m)
np.roll(x, 1)
np.roll(x, -2)
np.roll(m, 1, axis=1)
np.broadcast_to(x[:1], (3,))
np.broadcast_to(x, (2, 5))
np.broadcast_arrays(x[:1], y)
np.minimum(x, y)
np.maximum(x, 0)
np.minimum(x, 2.5)
np.maximum(u, i)
np.fmin(x, y)
_out(np.maximum, (x, 0), np.zeros(5, dtype=int))
_out(np.add, (x, y), np.zeros(5, dtype=int))
np.add(x, y)
np.add(x, 1.5)
np.subtract(x, y)
np.multiply(x, y)
np.floor_divide(x, y)
np.floor_divide(x, 2)
np.remainder(x, 3)
np.mod(x, 3)
np.divmod(x, 3)
divmod(x, 3)
divmod(x[0], 3)
divmod(7, x[0])
np.divide(x, 2)
np.true_divide(x, y)
x / 2
x / y
x // y
x // -2
x % 3
x % -3
-x // 2
-(-x // 3)
x * 2.5
x + u
x + i
u + u
u * 2
u + 1
u - 5
i - 7
i * 1000000
u + np.int64(1)
x ** 2
x ** 0
2 ** n
np.power(x, 2)
x << 2
x >> 1
x & 3
x | 8
x ^ y
~x
~b
-x
+x
abs(x)
np.abs(x)
np.absolute(x)
np.negative(x)
np.sign(x)
np.sign(f)
np.square(x)
np.invert(b)
np.logical_not(x)
np.logical_not(b)
np.logical_and(x > 0, y > 1)
np.logical_or(x > 0, y > 1)
np.logical_xor(x > 0, y > 1)
np.logical_and.reduce([x > 0, y > 1, b])
np.logical_or.reduce(m > 3)
np.logical_and.reduce(m > 3, axis=1)
np.bitwise_and(x, 3)
np.left_shift(1, n)
np.right_shift(x, 1)
b & (x > 0)
b | (x > 0)
b ^ (x > 0)
b * x
b + b
x * b
x == y
x != y
x < y
x >= 1
np.equal(x, y)
np.greater(x, y)
np.not_equal(x, 3)
x[b]
x[~b]
x[x > 0]
x[[0, 2]]
x[n]
x[-1]
x[1:3]
x[::2]
x[::-1]
x[...]
x[()]
x[-2:]
m[0]
m[:, 1]
m[0, 1]
m[1, ::-1]
m[m > 0]
m[[0, 1], [1, 2]]
m[..., 0]
m[:, [0, 2]]
m[[True, False]]
m[[1, 0], :]
m[np.array([1, 0])][:, 0]
_set(x, slice(None), y)
_set(x, 0, 9)
_set(x, b, 0)
_set(x, b, y[b])
_set(x, slice(1, 3), [7, 8])
_set(x, [0, 2], 5)
_set(x, n, y)
_set(m, (slice(None), 0), 1)
_set(m, (0, slice(None)), x[:3])
_set(m, m > 0, 0)
_set(u, 0, 7)
_set(i, slice(None), x)
_set(x, slice(None), f)
_iop(x, '+=', y)
_iop(x, '-=', 1)
_iop(x, '*=', 2)
_iop(x, '//=', 2)
_iop(u, '+=', 100)
_iop(i, '+=', x)
_iop(x[1:], '+=', 1)
_iop(b, '&=', x > 0)
_iop(b, '|=', x > 0)
_iop(x, '<<=', 1)
_iop(x, '%=', 3)
_at(np.add, x, n, 1)
_at(np.add, x, [0, 0, 1], [1, 2, 3])
_at(np.maximum, x, [0, 0], [9, 4])
_at(np.subtract, x, n, y)
np.add.reduce(x)
np.add.reduce(m, axis=1)
np.add.reduceat(x, [0, 2, 3])
np.add.reduceat(x, [0, 2], dtype=float)
np.add.reduceat(m, [0, 1], axis=1)
np.maximum.reduceat(x, [0, 3])
np.maximum.reduce(x)
np.minimum.reduce(m, axis=0)
np.multiply.reduce(x)
np.multiply.outer(x, y)
np.subtract.outer(x, y)
np.outer(x, y)
np.dot(x, y)
np.inner(x, y)
x @ y
m @ m.T
np.matmul(m, m.T)
np.dot(m, m.T)
x.astype(np.int32)
x.astype('u1')
x.astype(float)
f.astype(int)
x.astype(bool)
b.astype(int)
b.astype('i4')
u.astype('>u2')
x.astype('i8', copy=False)
np.int64(x[0])
np.int32(x[0]) + 1
int(x[0])
float(x[0])
bool(x[0])
x[0] + x[1]
x[0] // 2
x[0] % 4
-x[0]
x[0] == x[1]
x[0] < 5
x[0].dtype
x[0].item()
x.dtype
x.shape
m.shape
m.size
m.ndim
len(x)
x.itemsize
x.nbytes
x.tolist()
m.tolist()
list(x)
sum(x)
max(x)
min(x)
sorted(x)
[int(v) for v in x]
any(x > 3)
all(x > -9)
np.array([x[0], 2])
np.array([x, y])
np.array(x, dtype=np.int32)
np.array([1, 2, 3])
np.array([[1, 2], [3, 4]])
np.array([x[0], 1.5])
np.array(x, copy=True)
np.array(x[0])
np.array([])
np.array([], dtype=int)
np.array(x, ndmin=2)
np.asarray(x)
np.asarray([1, 2], dtype=np.int64)
np.asarray(x, dtype=float)
np.asanyarray(x)
np.ascontiguousarray(m.T)
np.copy(x)
x.copy()
np.fromiter((v for v in x), dtype=np.int64)
np.fromiter((v * 2 for v in x), dtype=np.int64, count=len(x))
np.digitize(x, [0, 2, 4])
np.digitize(x, [0, 2, 4], right=True)
np.histogram(x, bins=[-10, 0, 10])[0]
np.ravel_multi_index((np.array([0, 1]), np.array([1, 2])), (2, 3))
np.unravel_index(n, (2, 3))
np.floor(f)
np.ceil(f)
np.rint(f)
np.trunc(f)
np.round(f)
np.around(f)
np.isfinite(f)
np.isnan(f)
np.sqrt(np.abs(f))
np.isclose(f, 0.5)
np.allclose(f, f)
np.setdiff1d(x, y)
np.intersect1d(x, y)
np.union1d(x, y)
np.compress(b, x)
np.extract(x > 0, x)
np.select([x > 3, x > 0], [x, y], 0)
np.choose(n % 2, [x, y])
np.ptp(x)
np.median(x)
np.nanmax(f)
np.nansum(f)
np.indices((2, 2))
np.triu(m)
np.trace(m)
np.partition(x, 2)[2]
np.vectorize(lambda v: v + 1)(x)
np.apply_along_axis(np.sum, 1, m)
np.ndenumerate(x).__class__ is not None
[(k, int(v)) for k, v in np.ndenumerate(m)]
[k for k in np.ndindex(2, 2)]
np.r_[0, x]
np.r_[x, y]
np.r_[0:3, x]
np.c_[x, y]
np.ix_([0, 1], [0, 2])
m[np.ix_([0, 1], [0, 2])]
np.meshgrid(x[:2], y[:2])
np.interp([0.5, 1.5], [0, 1, 2], [0., 10., 20.])
np.result_type(x, i)
np.dtype('i4').itemsize
np.iinfo(np.int32).max
np.issubdtype(x.dtype, np.integer)
np.can_cast(np.int32, np.int64)
np.shape(m)
np.ndim(m)
np.size(m)
np.size(m, 0)
np.isscalar(x[0])
np.empty(0, dtype=int)
np.empty_like(x, shape=0)
np.array_split(np.arange(7), 3)
np.trim_zeros(n)
np.lexsort((s, n))
np.nancumsum(x)
np.cumprod(n)
x.repeat(2)
x.repeat(n)
x.argsort(kind='stable')
m.argsort(axis=0, kind='stable')
x.nonzero()
x.all()
x.any()
x.compress(b)
m.diagonal()
x.byteswap().byteswap()
u.view('i1')
x.view(np.int64)
i.view('u4')
np.hstack([m, m])
np.vstack([m, m])
np.concatenate([m.ravel(), x])
np.tile(m, (1, 2))
np.pad(x, 1)
np.pad(x, (0, 2))
np.pad(x, (1, 0), constant_values=9)
np.block([x, y])
np.einsum('i,i->', x, y)
np.gcd(x, 6)
np.floor_divide(x, y, where=y != 0, out=np.zeros_like(x))
np.divide(x, y, out=np.zeros(5), where=y > 1)
np.rec.fromarrays([x, y], names='a,b')['b']
np.array([(1, 2), (3, 4)], dtype=[('a', 'i4'), ('b', 'i8')])
np.array(list(zip(x, y)), dtype=[('a', 'i8'), ('b', 'i8')])
np.unique(np.array(list(zip(n, s)), dtype=[('a', 'i8'), ('b', 'i8')]), return_counts=True)
np.zeros(2, dtype=[('a', 'i4'), ('b', 'f8')])
x[np.argsort(x, kind='stable')][::-1]
np.searchsorted(np.cumsum(n), np.arange(3), side='right')
np.split(x, np.cumsum(n)[:-1])
np.full(x.shape, -1, dtype=x.dtype)
np.full(len(x), fill_value=3)
x.max(initial=0)
x.min()
np.sum([x, y], axis=0)
np.sum((1, 2, 3))
np.max([x[0], 2])
np.max((x[0], x[1]))
np.min([3, 1])
np.sum(x[b])
np.sum(x == 0)
np.dot(x, [1, 2, 3, 4, 5])
np.append([], [1]).dtype
np.size(x)
np.less_equal(x, y).sum()
(x > 0).sum()
(x > 0).nonzero()[0]
(m > 0).sum(axis=0)
np.sum(m > 0, axis=1)
np.sum(m, axis=0, dtype=float)
np.maximum(x, y).max()
np.copyto(x, y, where=b) or x
np.put(x, [0, 1], [5, 6]) or x
np.putmask(x, b, y) or x
np.place(x, b, [1, 2]) or x
x.fill(3) or x
x.sort() or x
x.put([0], 4) or x
x.resize(3) if False else x
np.require(x, dtype=np.int64)
np.ravel(m)
np.ascontiguousarray(x[::2])
np.array_str(np.arange(3))
np.concatenate((x, y), dtype=float)
np.concatenate((x, y), out=np.zeros(10, dtype=int))
np.add.at is not None
x.strides
m.T.flags['C_CONTIGUOUS']
m.flags.c_contiguous
""".strip().split("\n")


def helpers(N):
    def _out(fn, a, out):
        a = a if isinstance(a, tuple) else (a,)
        r = fn(*a, out=out)
        return out, r

    def _outv(fn, a, out):
        fn(a, out=out[1:])
        return out

    def _set(a, k, v):
        a = a.copy()
        a[k] = v
        return a

    def _iop(a, op, v):
        d = dict(a=a, v=v)
        exec("a %s v" % op, d)
        return d["a"], a

    def _at(uf, a, k, v):
        a = a.copy()
        uf.at(a, k, v)
        return a
    return dict(np=N, _out=_out, _outv=_outv, _set=_set, _iop=_iop, _at=_at)


def plain(x):
    if type(x).__name__ == "SReal":
        v = core.ENG._get_model().eval(x.t, model_completion=True).as_fraction()
        return float(v)
    return sarr.concretize(x)


def norm(r):
    """Plain, comparable form of a result: (kind, dtype, values)."""
    if isinstance(r, (list, tuple)):
        return ("seq", None, [norm(x) for x in r])
    if isinstance(r, dict):
        return ("dict", None, sorted((k, norm(v)) for k, v in r.items()))
    if hasattr(type(r), "_is_sarr") or hasattr(r, "_is_sarr"):
        dt = np.dtype(r.dtype)
        if dt.kind == "f" and r.has_sym():
            return ("arr", dt, np.array([plain(v) for v in r.elems()], dtype=dt).reshape(r.shape))
        c = sarr.concretize(r)
        return ("arr", dt, np.asarray(c))
    if isinstance(r, np.ndarray):
        return ("arr", r.dtype, r)
    if sarr.is_sym(r):
        dt = getattr(r, "dt", None)
        return ("val", dt, plain(r))
    if isinstance(r, np.generic):
        return ("val", r.dtype, r)
    return ("val", None, r)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "seq":
        return len(a[2]) == len(b[2]) and all(same(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == "dict":
        return len(a[2]) == len(b[2]) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a[2], b[2]))
    if a[0] == "arr":
        if a[1] != b[1] or a[2].shape != b[2].shape:
            return False
        if a[1].names:
            return bool(np.all(a[2] == b[2]))
        return bool(np.array_equal(a[2], b[2]) if a[1].kind != "f" else np.allclose(a[2], b[2], equal_nan=True))
    if a[1] is not None and b[1] is not None and np.dtype(a[1]) != np.dtype(b[1]):
        return False
    try:
        return bool(a[2] == b[2])
    except Exception:
        return a[2] is b[2]


def real(expr, vals):
    env = helpers(np)
    env.update({k: np.array(v, dtype=d) for k, (d, v) in vals.items()})
    try:
        return norm(eval(expr, env))
    except Exception as ex:
        return ("exc", None, type(ex).__name__)


def shim(expr, vals, sym):
    e = core.Engine()
    core.set_engine(e)
    res = []

    def run():
        v = harness.SymVars(e)
        env = helpers(NP)
        for k, (d, val) in vals.items():
            a = np.array(val, dtype=d)
            if sym and a.size and k != "b":
                c = []
                for j, t in enumerate(a.ravel()):
                    if a.dtype.kind == "f":
                        q = v.real("%s%d" % (k, j), a.dtype)
                    else:
                        q = v.int("%s%d" % (k, j), int(np.iinfo(a.dtype).min), int(np.iinfo(a.dtype).max), a.dtype)
                    v.assume(q == (float(t) if a.dtype.kind == "f" else int(t)))
                    c.append(q)
                env[k] = sarr.asarr(c, a.dtype).reshape(a.shape)
            elif sym and a.size:
                c = []
                for j, t in enumerate(a):
                    q = v.bool("%s%d" % (k, j))
                    v.assume(q == bool(t))
                    c.append(q)
                env[k] = sarr.asarr(c, np.dtype(bool))
            else:
                env[k] = sarr.from_real(a)
        try:
            r = eval(expr, env)
        except Exception as ex:
            import traceback
            tb = traceback.format_exc()
            res.append(("exc", tb if "-v" in sys.argv else None, type(ex).__name__ + " " + str(ex)[:90]))
            return None
        conc = list(e.notes)
        res.append(norm(r))
        if conc:
            notes.append(conc[0])
        return None
    notes = []
    try:
        e.explore(run)
    except core.Inconclusive as ex:
        return ("unsup", None, str(ex)), notes
    if len(res) != 1:
        return ("paths", None, len(res)), notes
    return res[0], notes


def main():
    bad = unsup = conc = n = 0
    for expr in EXPRS:
        for k, vals in enumerate(VALS):
            r = real(expr, vals)
            for sym in (False, True):
                n += 1
                g, notes = shim(expr, vals, sym)
                if g[0] == "unsup":
                    unsup += 1
                    if k == 0:
                        print("unsupported  %-60s sym=%d %s" % (expr[:60], sym, g[2][:100]))
                    continue
                if r[0] == "exc":
                    ok = g[0] == "exc" and g[2].split()[0] == r[2]
                else:
                    ok = g[0] == r[0] and same(g, r)
                if not ok:
                    bad += 1
                    print("DIFFERS      %-60s sym=%d set=%d\n     real %s\n     got  %s" % (
                        expr[:60], sym, k, str(r)[:200].replace("\n", " "), str(g)[:300].replace("\n", " ")))
                elif notes:
                    conc += 1
                    if k == 0:
                        print("concretises  %-60s %s" % (expr[:60], notes[0][:80]))
    print("%d evaluations, %d differ, %d unsupported, %d concretise" % (n, bad, unsup, conc))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
