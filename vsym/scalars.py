"""Symbolic scalars with numpy 1.26 / Python semantics.

SInt   integer (z3 Int) with a static interval [lo,hi] and an optional numpy
       integer dtype (None = Python int).  Arithmetic wraps exactly as the
       numpy dtype does.
SReal  real number standing for a float (only exact when the values involved
       are exactly representable; harnesses say so).
SBool  boolean; truth-testing forks the path.
"""
import math
import operator

import numpy as np
import z3

from . import core

_INT_INFO = {}


def int_range(dt):
    dt = np.dtype(dt)
    r = _INT_INFO.get(dt)
    if r is None:
        if dt.kind == "b":
            r = (0, 1)
        else:
            i = np.iinfo(dt)
            r = (int(i.min), int(i.max))
        _INT_INFO[dt] = r
    return r


def is_sym(x):
    return isinstance(x, (SInt, SReal, SBool))


class Sym:
    __slots__ = ()
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- SBool
class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.eng().decide(self.t)

    def __repr__(self):
        return "SBool(%s)" % self.t

    dtype = np.dtype(bool)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self, dt=None):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 0, 1, dt)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __and__(self, o):
        b = to_boolterm(o)
        if b is None:
            return self.as_int() & o
        return mkbool(z3.And(self.t, b)) if not isinstance(b, bool) else (self if b else False)

    __rand__ = __and__

    def __or__(self, o):
        b = to_boolterm(o)
        if b is None:
            return self.as_int() | o
        return mkbool(z3.Or(self.t, b)) if not isinstance(b, bool) else (True if b else self)

    __ror__ = __or__

    def __xor__(self, o):
        b = to_boolterm(o)
        if b is None:
            return self.as_int() ^ o
        if isinstance(b, bool):
            return mkbool(z3.Not(self.t)) if b else self
        return mkbool(z3.Xor(self.t, b))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        b = to_boolterm(o)
        if b is None:
            return self.as_int() == o
        if isinstance(b, bool):
            return self if b else mkbool(z3.Not(self.t))
        return mkbool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, (bool, np.bool_)) else ~r

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        return cast_scalar(self, np.dtype(dt))


for _n in ("add", "sub", "mul", "floordiv", "truediv", "mod", "lt", "le", "gt", "ge",
           "radd", "rsub", "rmul", "neg", "pos", "abs", "lshift", "rshift", "pow"):
    def _mk(n):
        def f(self, *a):
            return getattr(self.as_int(), "__%s__" % n)(*a)
        f.__name__ = "__%s__" % n
        return f
    setattr(SBool, "__%s__" % _n, _mk(_n))


_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)


def mkbool(t):
    if t.eq(_TRUE):
        return True
    if t.eq(_FALSE):
        return False
    return SBool(t)


def to_boolterm(o):
    if isinstance(o, SBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    return None


def sand(*xs):
    ts = []
    for x in xs:
        b = to_boolterm(x)
        if b is None:
            b = bool(x)
        if b is False:
            return False
        if b is not True:
            ts.append(b)
    if not ts:
        return True
    return SBool(z3.And(*ts)) if len(ts) > 1 else SBool(ts[0])


def sor(*xs):
    ts = []
    for x in xs:
        b = to_boolterm(x)
        if b is None:
            b = bool(x)
        if b is True:
            return True
        if b is not False:
            ts.append(b)
    if not ts:
        return False
    return SBool(z3.Or(*ts)) if len(ts) > 1 else SBool(ts[0])


def snot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.t))
    return not x


def simplies(a, b):
    return sor(snot(a), b)


# ---------------------------------------------------------------- SInt
def mkint(t, lo, hi, dt=None):
    """Build an int result; collapses to a concrete value if lo==hi."""
    if lo is not None and lo == hi:
        return lo if dt is None else np.dtype(dt).type(lo)
    return SInt(t, lo, hi, dt)


def iterm(x):
    """z3 term, lo, hi of an integer-like value."""
    if isinstance(x, SInt):
        return x.t, x.lo, x.hi
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), 0, 1
    v = int(x)
    return z3.IntVal(v), v, v


def is_intlike(x):
    return isinstance(x, (SInt, SBool, int, np.integer, np.bool_))


def is_floatlike(x):
    return isinstance(x, (SReal, float, np.floating))


_PYINT = np.dtype(np.int64)


def _rep(x):
    """A concrete scalar with the type behaviour of x (value-based casting)."""
    if isinstance(x, SInt):
        if x.dt is not None:
            return x.dt.type(min(max(1, x.lo if x.lo is not None else 1), int_range(x.dt)[1]))
        if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi > 2**63 - 1:
            return min(x.hi, 2**64 - 1)
        return 1
    if isinstance(x, SBool):
        return np.bool_(True)
    if isinstance(x, SReal):
        return x.dt.type(1.0) if x.dt is not None else 1.0
    return x


_RES_CACHE = {}


def _pyonly(x):
    if isinstance(x, SInt):
        return x.dt is None
    if isinstance(x, SReal):
        return x.dt is None
    if isinstance(x, SBool):
        return False
    return isinstance(x, (int, float, bool)) and not isinstance(x, np.generic)


def scalar_result_dtype(op, a, b):
    """None for a pure-Python result, else the numpy dtype of a op b."""
    if _pyonly(a) and _pyonly(b):
        return None
    ra, rb = _rep(a), _rep(b)
    key = (op, type(ra), type(rb), isinstance(ra, int) and ra > 2**63 - 1,
           isinstance(rb, int) and rb > 2**63 - 1)
    r = _RES_CACHE.get(key)
    if r is None:
        with np.errstate(all="ignore"):
            one_a = type(ra)(1) if not (isinstance(ra, int) and ra > 2**63 - 1) else ra
            one_b = type(rb)(1) if not (isinstance(rb, int) and rb > 2**63 - 1) else rb
            r = np.asarray(getattr(operator, op)(one_a, one_b)).dtype
        _RES_CACHE[key] = r
    return r


def wrap(t, lo, hi, dt):
    """Reduce the mathematical integer t (in [lo,hi]) into integer dtype dt."""
    if dt is None:
        return mkint(t, lo, hi, None)
    m, M = int_range(dt)
    if lo is not None and hi is not None and lo >= m and hi <= M:
        return mkint(t, lo, hi, dt)
    e = core.eng()
    if e.decide(z3.And(t >= m, t <= M)):
        return mkint(t, m if lo is None else max(lo, m), M if hi is None else min(hi, M), dt)
    w = M - m + 1
    if lo is not None and hi is not None:
        if hi < M + w + 1 and lo > M:
            return mkint(t - w, m, M, dt)
        if lo >= m - w and hi < m:
            return mkint(t + w, m, M, dt)
    return mkint((t - m) % w + m, m, M, dt)


def _mulbounds(a, b, c, d):
    if None in (a, b, c, d):
        return None, None
    v = (a * c, a * d, b * c, b * d)
    return min(v), max(v)


def _add(x, y):
    return None if x is None or y is None else x + y


def _sub(x, y):
    return None if x is None or y is None else x - y


def ceil_to_range(x):
    return x


class SInt(Sym):
    __slots__ = ("t", "lo", "hi", "dt", "bits", "tc")

    def __init__(self, t, lo=None, hi=None, dt=None, bits=None, tc=None):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.dt = None if dt is None else np.dtype(dt)
        self.bits = bits        # optional list of Bool terms, LSB first, value = sum
        self.tc = tc            # optional two's complement bits of a signed value

    # ---- numpy-scalar look
    @property
    def dtype(self):
        return self.dt if self.dt is not None else _PYINT

    @property
    def itemsize(self):
        return self.dtype.itemsize

    nbytes = itemsize

    def astype(self, dt, **kw):
        return cast_scalar(self, np.dtype(dt))

    def item(self):
        return SInt(self.t, self.lo, self.hi, None, self.bits, self.tc)

    def copy(self):
        return self

    def view(self, dt):
        return cast_scalar(self, np.dtype(dt))

    def __getitem__(self, key):
        if key == () or key is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def byteswap(self):
        n = self.dtype.itemsize
        if self.tc is not None or self.bits is not None and self.lo >= 0:
            b = int_bits(self, 8 * n)
            b = [x for k in range(n) for x in b[8 * (n - 1 - k):8 * (n - k)]]
            return from_tc(b, self.dtype)
        m, M = int_range(self.dtype)
        u = self.t if m == 0 else z3.If(self.t < 0, self.t + (M - m + 1), self.t)
        r = z3.IntVal(0)
        for k in range(n):
            r = r + ((u / (256 ** k)) % 256) * (256 ** (n - 1 - k))
        if m < 0:
            r = z3.If(r > M, r - (M - m + 1), r)
        return SInt(r, m, M, self.dt)

    def bit_length(self):
        return int(self).bit_length()

    @property
    def real(self):
        return self

    # ---- conversions (fork over all values)
    def __int__(self):
        if self.bits is not None and self.lo >= 0:
            e = core.eng()
            v = 0
            for i, b in enumerate(self.bits):
                if (b if isinstance(b, bool) else e.decide(b)):
                    v |= 1 << i
            return v
        return core.eng().concretize(self.t)

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __repr__(self):
        return "SInt(%s:%s)" % (self.t, self.dt)

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    # ---- arithmetic
    def _bin(self, o, op, refl=False):
        return int_binop(op, o, self) if refl else int_binop(op, self, o)

    def __neg__(self):
        return wrap(-self.t, None if self.hi is None else -self.hi,
                    None if self.lo is None else -self.lo, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.lo, self.hi
        if lo is not None and lo >= 0:
            return self
        nh = None if lo is None or hi is None else max(abs(lo), abs(hi))
        return wrap(z3.If(self.t < 0, -self.t, self.t), 0, nh, self.dt)

    def __invert__(self):
        if self.dt is not None and self.dt.kind == "u":
            m, M = int_range(self.dt)
            return wrap(M - self.t, _sub(M, self.hi), _sub(M, self.lo), self.dt)
        return wrap(-1 - self.t, _sub(-1, self.hi), _sub(-1, self.lo), self.dt)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)


def _deferred(o):
    # arrays know what to do with scalars
    return hasattr(o, "_is_sarr") or isinstance(o, np.ndarray)


def _arr_defer(op, a, b):
    from . import sarr
    return sarr.binop(op, a, b)


def int_binop(op, a, b):
    if _deferred(a) or _deferred(b):
        return _arr_defer(op, a, b)
    if is_floatlike(a) or is_floatlike(b) or op == "truediv":
        if not (isinstance(a, (SInt, SBool, SReal, int, float, np.generic)) and
                isinstance(b, (SInt, SBool, SReal, int, float, np.generic))):
            return NotImplemented
        return real_binop(op, a, b)
    if not (is_intlike(a) and is_intlike(b)):
        return NotImplemented
    dt = scalar_result_dtype(op, a, b)
    if dt is not None and dt.kind == "f":
        return real_binop(op, a, b)
    if dt is not None and dt.kind == "b":
        dt = None
    return int_op_raw(op, a, b, dt)


def _bitlist(x, n=None):
    if isinstance(x, SInt):
        return x.bits
    if isinstance(x, (int, np.integer)) and int(x) >= 0:
        v = int(x)
        out = []
        while v:
            out.append(bool(v & 1))
            v >>= 1
        return out
    return None


def from_tc(bits, dt):
    """Integer of numpy type dt with these two's complement bits."""
    dt = np.dtype(dt)
    n = 8 * dt.itemsize
    bits = list(bits)
    assert len(bits) == n
    if dt.kind == "u":
        return from_bits(bits, dt)
    top = bits[-1]
    if top is False or not isinstance(top, bool) and z3.is_false(top):
        return from_bits(bits[:-1], dt)
    low = from_bits(bits[:-1], None)
    t, lo, hi = iterm(low)
    w = 1 << (n - 1)
    if top is True or not isinstance(top, bool) and z3.is_true(top):
        if not is_sym(low):
            return dt.type(int(low) - w)
        return SInt(t - w, lo - w, hi - w, dt, None, bits)
    return SInt(t - z3.If(top, z3.IntVal(w), z3.IntVal(0)), lo - w, hi, dt, None, bits)


def tc_bits(x, n):
    """Two's complement bits of x if known without arithmetic."""
    if isinstance(x, SInt):
        if x.tc is not None:
            return (list(x.tc) + [x.tc[-1]] * n)[:n]
        if x.bits is not None and x.lo >= 0:
            return (list(x.bits) + [False] * n)[:n]
        return None
    v = int(x)
    return [bool(v >> i & 1) for i in range(n)]


def int_bits(v, n):
    """n lowest two's complement bits of v, least significant first."""
    if v.tc is not None:
        return (list(v.tc) + [v.tc[-1]] * n)[:n]
    if v.bits is not None and v.lo >= 0:
        return (list(v.bits) + [False] * n)[:n]
    u = z3.If(v.t < 0, v.t + (1 << n), v.t) if v.lo < 0 else v.t
    return [False if v.lo >= 0 and v.hi < (1 << i) else (u / (1 << i)) % 2 == 1 for i in range(n)]


def from_bits(bits, dt):
    """Integer whose i-th bit is bits[i] (bool or Bool term)."""
    lo = 0
    hi = 0
    ts = []
    for i, b in enumerate(bits):
        if b is False or (not isinstance(b, bool) and z3.is_false(b)):
            continue
        if b is True or (not isinstance(b, bool) and z3.is_true(b)):
            lo += 1 << i
            hi += 1 << i
        else:
            hi += 1 << i
            ts.append(z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)))
    if not ts:
        return lo if dt is None else np.dtype(dt).type(lo)
    t = z3.Sum(*ts) if len(ts) > 1 else ts[0]
    if lo:
        t = t + lo
    r = SInt(t, lo, hi, dt, list(bits))
    if dt is not None:
        m, M = int_range(dt)
        if hi > M:
            w = wrap(t, lo, hi, dt)
            return w
    return r


def int_op_raw(op, a, b, dt):
    """Exact integer op followed by reduction into dt (None: Python int)."""
    if not is_sym(a) and not is_sym(b):
        v = getattr(operator, op)(int(a), int(b)) if op not in ("floordiv", "mod") or int(b) != 0 else 0
        return cast_scalar(v, dt) if dt is not None else v
    ta, la, ha = iterm(a)
    tb, lb, hb = iterm(b)
    if op == "add":
        ba, bb = _bitlist(a), _bitlist(b)
        if ba is not None and bb is not None and (isinstance(a, SInt) and isinstance(b, SInt)) is False or \
                (ba is not None and bb is not None):
            # disjoint bit positions -> keep the bit view
            n = max(len(ba), len(bb))
            A = list(ba) + [False] * (n - len(ba))
            B = list(bb) + [False] * (n - len(bb))
            if all(x is False or y is False for x, y in zip(A, B)):
                return from_bits([y if x is False else x for x, y in zip(A, B)], dt)
        return wrap(ta + tb, _add(la, lb), _add(ha, hb), dt)
    if op == "sub":
        if isinstance(b, SInt) and b.bits is not None and lb >= 0 and not is_sym(a) and \
                int(a) == (1 << len(b.bits)) - 1:
            return from_bits([(not x) if isinstance(x, bool) else z3.Not(x) for x in b.bits], dt)
        return wrap(ta - tb, _sub(la, hb), _sub(ha, lb), dt)
    if op == "mul":
        if not is_sym(b) and int(b) == 1 or not is_sym(a) and int(a) == 1:
            x = a if is_sym(a) else b
            lo, hi = (la, ha) if is_sym(a) else (lb, hb)
            r = wrap(iterm(x)[0], lo, hi, dt)
            if isinstance(r, SInt) and isinstance(x, SInt):
                r.bits = x.bits
            return r
        lo, hi = _mulbounds(la, ha, lb, hb)
        return wrap(ta * tb, lo, hi, dt)
    if op in ("floordiv", "mod"):
        e = core.eng()
        if lb is None or hb is None or lb <= 0 <= hb:
            if e.decide(tb == 0):
                if dt is None:
                    raise ZeroDivisionError("integer division or modulo by zero")
                return np.dtype(dt).type(0)
            if lb is None or hb is None or lb < 0 < hb:
                if e.decide(tb > 0):
                    lb = 1 if lb is None else max(lb, 1)
                else:
                    hb = -1 if hb is None else min(hb, -1)
            elif lb == 0:
                lb = 1
            else:
                hb = -1
        # z3 div/mod: remainder always >= 0 (Euclidean); floor semantics for b>0
        if lb is not None and lb > 0:
            q, r = ta / tb, ta % tb
            if op == "mod":
                mh = None if hb is None else hb - 1
                if la is not None and la >= 0 and ha is not None:
                    mh = ha if mh is None else min(mh, ha)
                return wrap(r, 0, mh, dt)
            qs = [x // y for x in (la, ha) for y in (lb, hb)] if None not in (la, ha, lb, hb) else None
            return wrap(q, min(qs) if qs else (0 if la is not None and la >= 0 else None),
                        max(qs) if qs else (ha // lb if ha is not None and ha >= 0 else None), dt)
        q, r = (-ta) / (-tb), -((-ta) % (-tb))
        if op == "mod":
            return wrap(r, None if lb is None else lb + 1, 0, dt)
        return wrap(q, None, None, dt)
    if op in ("lshift", "rshift"):
        if is_sym(b):
            b = int(b)
            tb, lb, hb = iterm(b)
        n = int(b)
        if n < 0:
            raise ValueError("negative shift count")
        if dt is not None and n >= 8 * np.dtype(dt).itemsize:
            if op == "lshift":
                return np.dtype(dt).type(0)
            return mkint(z3.If(ta < 0, z3.IntVal(-1), z3.IntVal(0)), -1, 0, dt)
        bl = a.bits if isinstance(a, SInt) else None
        if op == "lshift":
            if bl is not None:
                nb = [False] * n + list(bl)
                if dt is None or (1 << len(nb)) - 1 <= int_range(dt)[1]:
                    return from_bits(nb, dt)
            return wrap(ta * (1 << n), None if la is None else la << n,
                        None if ha is None else ha << n, dt)
        if bl is not None:
            return from_bits(list(bl)[n:], dt)
        return wrap(ta / (1 << n), None if la is None else la >> n,
                    None if ha is None else ha >> n, dt)
    if op in ("and_", "or_", "xor"):
        return _bitop(op, a, b, dt)
    if op == "pow":
        if is_sym(b):
            b = int(b)
        n = int(b)
        if n < 0:
            return real_binop("pow", a, b)
        r = 1
        for _ in range(n):
            r = int_op_raw("mul", r, a, dt)
        return r if n else (1 if dt is None else np.dtype(dt).type(1))
    raise core.Inconclusive("int op " + op)


def _bitop(op, a, b, dt):
    ba, bb = _bitlist(a), _bitlist(b)
    if ba is not None and bb is not None:
        n = max(len(ba), len(bb))
        A = list(ba) + [False] * (n - len(ba))
        B = list(bb) + [False] * (n - len(bb))

        def f(x, y):
            if op == "and_":
                if x is False or y is False:
                    return False
                if x is True:
                    return y
                if y is True:
                    return x
                return z3.And(x, y)
            if op == "or_":
                if x is True or y is True:
                    return True
                if x is False:
                    return y
                if y is False:
                    return x
                return z3.Or(x, y)
            if x is False:
                return y
            if y is False:
                return x
            if x is True:
                return (not y) if isinstance(y, bool) else z3.Not(y)
            if y is True:
                return z3.Not(x)
            return z3.Xor(x, y)
        return from_bits([f(x, y) for x, y in zip(A, B)], dt)
    if op == "and_":
        if is_sym(a) and not is_sym(b):
            pass
        elif is_sym(b) and not is_sym(a):
            a, b = b, a
        if not is_sym(b):
            c = int(b)
            ta, la, ha = iterm(a)
            if c >= 0:
                # sum over runs of ones
                r = z3.IntVal(0)
                i = 0
                while (c >> i):
                    if (c >> i) & 1:
                        j = i
                        while (c >> j) & 1:
                            j += 1
                        r = r + ((ta / (1 << i)) % (1 << (j - i))) * (1 << i)
                        i = j
                    else:
                        i += 1
                return mkint(r, 0, c if ha is None or la is None or la < 0 else min(c, ha), dt)
    w = 64 if dt is None else 8 * np.dtype(dt).itemsize
    ta, _, _ = iterm(a)
    tb, _, _ = iterm(b)
    f = {"and_": lambda x, y: x & y, "or_": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
    bv = f(z3.Int2BV(ta, w), z3.Int2BV(tb, w))
    signed = dt is None or np.dtype(dt).kind == "i"
    t = z3.BV2Int(bv, is_signed=signed)
    m, M = (-(2**63), 2**63 - 1) if dt is None else int_range(dt)
    return SInt(t, m, M, dt)


def _cmp(op, a, b):
    if _deferred(a) or _deferred(b):
        return _arr_defer(op, a, b)
    if is_floatlike(a) or is_floatlike(b):
        return real_cmp(op, a, b)
    if not (is_intlike(a) and is_intlike(b)):
        return NotImplemented
    ta, la, ha = iterm(a)
    tb, lb, hb = iterm(b)
    known = None not in (la, ha, lb, hb)
    if op == "lt":
        if known:
            if ha < lb:
                return True
            if la >= hb:
                return False
        if ta is tb or ta.eq(tb):
            return False
        return SBool(ta < tb)
    if op == "le":
        if known:
            if ha <= lb:
                return True
            if la > hb:
                return False
        if ta is tb or ta.eq(tb):
            return True
        return SBool(z3.Not(tb < ta))
    if op == "gt":
        return _cmp("lt", b, a)
    if op == "ge":
        return _cmp("le", b, a)
    if known and (ha < lb or hb < la):
        return op == "ne"
    if ta.eq(tb):
        return op == "eq"
    ba, bb = _bitlist(a), _bitlist(b)
    if (isinstance(a, SInt) and a.tc is not None) or (isinstance(b, SInt) and b.tc is not None):
        ba, bb = tc_bits(a, 66), tc_bits(b, 66)
        if ba is not None and bb is not None:
            la = lb = 0
    if ba is not None and bb is not None and la >= 0 and lb >= 0:
        n = max(len(ba), len(bb))
        cs = []
        for x, y in zip(list(ba) + [False] * (n - len(ba)), list(bb) + [False] * (n - len(bb))):
            if isinstance(x, bool) and isinstance(y, bool):
                if x != y:
                    return op == "ne"
                continue
            if isinstance(x, bool):
                x, y = y, x
            if isinstance(y, bool):
                cs.append(x if y else z3.Not(x))
            elif not x.eq(y):
                cs.append(x == y)
            if len(cs) > 1 and cs[-1].eq(cs[-2]):
                cs.pop()
        if not cs:
            return op == "eq"
        c = z3.And(*cs) if len(cs) > 1 else cs[0]
        return SBool(c) if op == "eq" else SBool(z3.Not(c))
    if ta.get_id() > tb.get_id():
        ta, tb = tb, ta
    if op == "eq":
        return SBool(ta == tb)
    return SBool(z3.Not(ta == tb))


def _install(cls, binf, cmpf):
    for op, name in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("floordiv", "floordiv"),
                     ("mod", "mod"), ("truediv", "truediv"), ("lshift", "lshift"),
                     ("rshift", "rshift"), ("and_", "and"), ("or_", "or"), ("xor", "xor"),
                     ("pow", "pow")):
        def f(self, o, op=op):
            return binf(op, self, o)

        def g(self, o, op=op):
            return binf(op, o, self)
        setattr(cls, "__%s__" % name, f)
        setattr(cls, "__r%s__" % name, g)
    for op in ("lt", "le", "gt", "ge", "eq", "ne"):
        def h(self, o, op=op):
            return cmpf(op, self, o)
        setattr(cls, "__%s__" % op, h)


_install(SInt, int_binop, _cmp)


# ---------------------------------------------------------------- SReal
class SReal(Sym):
    __slots__ = ("t", "dt")

    def __init__(self, t, dt=None):
        self.t = t
        self.dt = None if dt is None else np.dtype(dt)

    @property
    def dtype(self):
        return self.dt if self.dt is not None else np.dtype(float)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def item(self):
        return SReal(self.t, None)

    def byteswap(self):
        from . import fakeio
        return fakeio.byteswap_opaque(self, self.dtype)

    def copy(self):
        return self

    def astype(self, dt, **kw):
        return cast_scalar(self, np.dtype(dt))

    def __getitem__(self, key):
        if key == () or key is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def __neg__(self):
        return SReal(-self.t, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.t < 0, -self.t, self.t), self.dt)

    def __bool__(self):
        return core.eng().decide(self.t != 0)

    def __hash__(self):
        return hash(float(self))

    def _concrete(self):
        """Fork over values is impossible for reals: pin to one value and say so."""
        e = core.eng()
        s = z3.simplify(self.t)
        if z3.is_rational_value(s):
            return s.numerator_as_long() / s.denominator_as_long()
        raise core.Inconclusive("concretisation of a symbolic float")

    def __float__(self):
        return self._concrete()

    def __int__(self):
        # truncate towards zero, then enumerate
        return int(trunc_real(self))

    __trunc__ = __int__

    def __floor__(self):
        return SInt(z3.ToInt(self.t))

    def __repr__(self):
        return "SReal(%s)" % self.t


def trunc_real(x):
    t = x.t
    return SInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def rterm(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return z3.RealVal(int(x))
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        raise core.Inconclusive("inf/nan with symbolic operand")
    n, d = f.as_integer_ratio()
    return z3.Q(n, d)


def mkreal(t, dt=None):
    return SReal(t, dt)


def real_binop(op, a, b):
    if _deferred(a) or _deferred(b):
        return _arr_defer(op, a, b)
    dt = scalar_result_dtype(op, a, b)
    return real_op_raw(op, a, b, dt)


def real_op_raw(op, a, b, dt):
    core.eng().notes.add("float arithmetic on symbolic values is exact real arithmetic "
                         "(rounding is outside the claim)")
    if op == "pow":
        if is_sym(b):
            if POW is None:
                raise core.Inconclusive("symbolic exponent")
            return cast_scalar(POW(a, SReal(rterm(b), None)), dt)
        if float(b) == int(b) and int(b) >= 0:
            r = z3.RealVal(1)
            for _ in range(int(b)):
                r = r * rterm(a)
            return SReal(r, dt)
        raise core.Inconclusive("pow")
    ta, tb = rterm(a), rterm(b)
    if op == "add":
        return SReal(ta + tb, dt)
    if op == "sub":
        return SReal(ta - tb, dt)
    if op == "mul":
        return SReal(ta * tb, dt)
    if op in ("truediv", "floordiv", "mod"):
        if is_sym(b):
            if core.eng().decide(tb == 0):
                if dt is None:
                    raise ZeroDivisionError("division by zero")
                raise core.Inconclusive("float division by zero")
        elif float(b) == 0.0:
            if dt is None:
                raise ZeroDivisionError("division by zero")
            raise core.Inconclusive("float division by zero")
        if op == "truediv":
            return SReal(quotient(ta, tb), dt)
        q = ta / tb
        fl = z3.ToReal(z3.ToInt(q))
        return SReal(fl, dt) if op == "floordiv" else SReal(ta - fl * tb, dt)
    raise core.Inconclusive("float op " + op)


POW = None      # power with a symbolic exponent, set by users of fakeunyt


def quotient(ta, tb):
    """ta / tb with common factors cancelled (tb is not zero)."""
    def split(t, n, d):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            for c in t.children():
                split(c, n, d)
        elif k == z3.Z3_OP_DIV:
            split(t.arg(0), n, d)
            split(t.arg(1), d, n)
        else:
            n.append(t)
    n, d = [], []
    split(ta, n, d)
    split(tb, d, n)
    hit = False
    for x in d[:]:
        if z3.is_rational_value(x):
            continue
        for i, y in enumerate(n):
            if x.eq(y):
                del n[i]
                d.remove(x)
                hit = True
                break
    if not hit:
        return ta / tb

    def prod(xs):
        r = z3.RealVal(1)
        for i, x in enumerate(xs):
            r = x if i == 0 else r * x
        return r
    return prod(n) / prod(d) if d else prod(n)


def real_cmp(op, a, b):
    if _deferred(a) or _deferred(b):
        return _arr_defer(op, a, b)
    ok = (SInt, SBool, SReal, int, float, np.generic)
    if not (isinstance(a, ok) and isinstance(b, ok)):
        return NotImplemented
    for x in (a, b):
        if not is_sym(x) and isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x)):
            if math.isnan(x):
                return op == "ne"
            pos = x > 0
            if x is b:
                return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
            return {"lt": not pos, "le": not pos, "gt": pos, "ge": pos, "eq": False, "ne": True}[op]
    ta, tb = rterm(a), rterm(b)
    if ta.eq(tb):
        return op in ("eq", "le", "ge")
    return mkbool({"lt": lambda: ta < tb, "le": lambda: ta <= tb, "gt": lambda: ta > tb,
                   "ge": lambda: ta >= tb, "eq": lambda: ta == tb, "ne": lambda: ta != tb}[op]())


def _real_bin(op, a, b):
    ok = (SInt, SBool, SReal, int, float, np.generic)
    if _deferred(a) or _deferred(b):
        return _arr_defer(op, a, b)
    if not (isinstance(a, ok) and isinstance(b, ok)):
        return NotImplemented
    return real_binop(op, a, b)


_install(SReal, _real_bin, real_cmp)


# ---------------------------------------------------------------- casts
def cast_scalar(x, dt):
    """Value of x converted to numpy dtype dt (as astype / assignment does)."""
    dt = np.dtype(dt)
    k = dt.kind
    if not is_sym(x):
        if dt.kind in "iu" and isinstance(x, int):
            m, M = int_range(dt)
            if not (m <= x <= M):
                x = (x - m) % (M - m + 1) + m
        if dt.kind == "O":
            return x
        with np.errstate(all="ignore"):
            return np.asarray(x).astype(dt)[()]
    if k == "b":
        if isinstance(x, SBool):
            return x
        return (x != 0)
    if k in "iu":
        if isinstance(x, SBool):
            return x.as_int(dt)
        if isinstance(x, SReal):
            x = trunc_real(x)
            core.eng().notes.add("float to integer conversion assumed in range")
        n = 8 * dt.itemsize
        if x.dt is not None and (x.tc is not None or x.bits is not None and x.lo >= 0 and x.hi > int_range(dt)[1]):
            if x.tc is not None and len(x.tc) == n and dt.kind == "i":
                return SInt(x.t, x.lo, x.hi, dt, None, x.tc)
            return from_tc(int_bits(x, n), dt)
        r = wrap(x.t, x.lo, x.hi, dt)
        if isinstance(r, SInt) and x.bits is not None and (1 << len(x.bits)) - 1 <= int_range(dt)[1]:
            r.bits = x.bits
        return r
    if k == "f":
        if isinstance(x, SReal):
            return SReal(x.t, dt)
        if isinstance(x, SInt):
            lim = {8: 2**53, 4: 2**24, 2: 2**11}.get(dt.itemsize, 2**53)
            if x.lo is None or x.hi is None or x.lo < -lim or x.hi > lim:
                e = core.eng()
                if not e.decide(z3.And(x.t >= -lim, x.t <= lim)):
                    # outside the exactly representable range
                    return round_int_to_float(x, dt)
        return SReal(rterm(x), dt)
    if k in "OSVU":
        return x
    raise core.Inconclusive("cast of a symbolic scalar to %s" % dt)


def round_int_to_float(x, dt):
    """int -> float64/32 round-half-even for |x| >= 2^p, bounded magnitude."""
    p = {8: 53, 4: 24}[np.dtype(dt).itemsize]
    e = core.eng()
    neg = e.decide(x.t < 0)
    t = -x.t if neg else x.t
    for k in range(1, 66 - p):
        if e.decide(t < 2 ** (p + k)):
            q, r = t / (2 ** k), t % (2 ** k)
            half = 2 ** (k - 1)
            rt = z3.If(z3.Or(r > half, z3.And(r == half, q % 2 == 1)), q + 1, q) * (2 ** k)
            return SReal(z3.ToReal(-rt if neg else rt), dt)
    raise core.Inconclusive("integer too large for float model")


def ite(c, a, b):
    """c ? a : b on scalars (same dtype expected)."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        ta = a.t if isinstance(a, SBool) else z3.BoolVal(bool(a))
        tb = b.t if isinstance(b, SBool) else z3.BoolVal(bool(b))
        return mkbool(z3.simplify(z3.If(c.t, ta, tb))) if not (is_sym(a) or is_sym(b)) else SBool(z3.If(c.t, ta, tb))
    if is_intlike(a) and is_intlike(b):
        if not is_sym(a) and not is_sym(b) and int(a) == int(b):
            return a
        ta, la, ha = iterm(a)
        tb, lb, hb = iterm(b)
        da = getattr(a, "dt", None) if is_sym(a) else (a.dtype if isinstance(a, np.generic) else None)
        db = getattr(b, "dt", None) if is_sym(b) else (b.dtype if isinstance(b, np.generic) else None)
        dt = da if da is not None else db
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        ba, bb = _bitlist(a), _bitlist(b)
        bits = None
        if ba is not None and bb is not None:
            n = max(len(ba), len(bb))
            A = list(ba) + [False] * (n - len(ba))
            B = list(bb) + [False] * (n - len(bb))
            bits = []
            for x, y in zip(A, B):
                if isinstance(x, bool) and isinstance(y, bool):
                    bits.append(x if x == y else (c.t if x else z3.Not(c.t)))
                elif not isinstance(x, bool) and not isinstance(y, bool) and x.eq(y):
                    bits.append(x)
                elif y is False and x is True:
                    bits.append(c.t)
                elif y is False:
                    bits.append(z3.And(c.t, x))
                elif x is False:
                    bits.append(z3.And(z3.Not(c.t), y))
                else:
                    bits.append(z3.If(c.t, z3.BoolVal(x) if isinstance(x, bool) else x,
                                      z3.BoolVal(y) if isinstance(y, bool) else y))
        return SInt(z3.If(c.t, ta, tb), lo, hi, dt, bits)
    if isinstance(a, (SReal, SInt, int, float, np.generic)) and isinstance(b, (SReal, SInt, int, float, np.generic)):
        dt = None
        for x in (a, b):
            if isinstance(x, SReal) and x.dt is not None:
                dt = x.dt
            elif isinstance(x, np.floating):
                dt = x.dtype
        return SReal(z3.If(c.t, rterm(a), rterm(b)), dt)
    # anything else: fork
    return a if core.eng().decide(c.t) else b


def smin(a, b):
    c = (a < b) if is_sym(a) or is_sym(b) else None
    if c is None:
        return a if a <= b else b
    if isinstance(c, bool):
        return a if c else b
    r = ite(c, a, b)
    if isinstance(r, SInt) and is_intlike(a) and is_intlike(b):
        _, la, ha = iterm(a)
        _, lb, hb = iterm(b)
        if ha is not None or hb is not None:
            r.hi = min(x for x in (ha, hb) if x is not None)
        if None not in (la, lb):
            r.lo = min(la, lb)
    return r


def smax(a, b):
    c = (a > b) if is_sym(a) or is_sym(b) else None
    if c is None:
        return a if a >= b else b
    if isinstance(c, bool):
        return a if c else b
    r = ite(c, a, b)
    if isinstance(r, SInt) and is_intlike(a) and is_intlike(b):
        _, la, ha = iterm(a)
        _, lb, hb = iterm(b)
        if la is not None or lb is not None:
            r.lo = max(x for x in (la, lb) if x is not None)
        if None not in (ha, hb):
            r.hi = max(ha, hb)
    return r


def scalar_eq(a, b):
    """Equality of two element values as SBool/bool."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        return sand(*[scalar_eq(x, y) for x, y in zip(a, b)])
    if is_sym(a) or is_sym(b):
        return a == b
    return bool(a == b)
