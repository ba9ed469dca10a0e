"""In-memory file system shared by the ranks of one symbolic run: binary files
whose bytes may belong to symbolic values, text files, and HDF5 files."""
import builtins
import fnmatch
import glob
import hashlib
import io
import mmap
import os
import sqlite3
import struct
import types
import weakref

import numpy as np

from . import core, sarr, scalars, fakeh5
from .sarr import SArr, Opaque, Uninit, raw, typed
from .scalars import SBool, SInt, SReal, Sym, is_sym


class Byte:
    """One byte of the (native order) representation of a symbolic value."""
    __slots__ = ("v", "dt", "j")

    def __init__(self, v, dt, j):
        self.v, self.dt, self.j = v, dt, j

    def __repr__(self):
        return "Byte(%r,%d)" % (self.v, self.j)


class Swapped:
    """Value whose bytes are the reverse of those of v (which is of type dt)."""

    def __new__(cls, v, dt):
        return Opaque(("swapped", id(v), dt.newbyteorder("=").str, _Keep(v)))


class _Keep:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _Keep) and o.v is self.v

    def __hash__(self):
        return id(self.v)


def native(dt):
    return np.dtype(dt).newbyteorder("=")


def elem_bytes(v, dt):
    """Bytes of one element of scalar type dt (in dt's byte order)."""
    dt = np.dtype(dt)
    n = dt.itemsize
    if isinstance(v, Uninit):
        v = v.read(native(dt))
    if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == "raw":
        return list(v.tag[1])
    if isinstance(v, Opaque) and isinstance(v.tag, tuple) and v.tag[0] == "swapped":
        b = [Byte(v.tag[3].v, np.dtype(v.tag[2]), j) for j in range(n)][::-1]
        return b[::-1] if dt.byteorder == ">" else b
    if isinstance(v, (Sym, Opaque)):
        b = [Byte(v, native(dt), j) for j in range(n)]
        return b[::-1] if dt.byteorder == ">" else b
    if dt.kind == "V" and not isinstance(v, bytes):
        return [0] * n
    return list(np.asarray(v, dtype=dt).tobytes())


def decode(bs, dt):
    """Element of scalar type dt stored in these bytes (storage form)."""
    dt = np.dtype(dt)
    if not any(isinstance(b, Byte) for b in bs):
        x = np.frombuffer(bytes(bs), dtype=dt)[0]
        if dt.kind == "V":
            return bytes(bs)
        return x.item()
    b = bs[::-1] if dt.byteorder == ">" else bs     # little endian order
    k0 = next(x for x in b if isinstance(x, Byte))
    if all(isinstance(x, Byte) and x.v is k0.v for x in b) and k0.dt.itemsize == len(b):
        js = [x.j for x in b]
        for order, sw in ((list(range(len(b))), False), (list(range(len(b)))[::-1], True)):
            if js == order:
                if not sw:
                    return _reinterpret(k0.v, k0.dt, dt)
                return raw(sarr._byteswap(typed(k0.v, k0.dt), k0.dt)) if isinstance(k0.v, SInt) and \
                    dt.kind in "iu" else Swapped(k0.v, k0.dt)
    if dt.kind in "iu" and all(not isinstance(x, Byte) or isinstance(x.v, SInt) for x in b):
        # integer assembled from bits of symbolic integers
        bits = []
        for x in b:
            if isinstance(x, Byte):
                vb = scalars.int_bits(x.v, 8 * x.dt.itemsize)
                bits += vb[8 * x.j:8 * x.j + 8]
            else:
                bits += [bool(x >> i & 1) for i in range(8)]
        return raw(scalars.from_tc(bits, native(dt)))
    return Opaque(("raw", tuple(bs)))


def _reinterpret(v, src, dst):
    src, dst = native(src), native(dst)
    if src == dst:
        return v
    if src.kind in "iu" and dst.kind in "iu":
        return raw(scalars.cast_scalar(v if not isinstance(v, SInt) else SInt(v.t, v.lo, v.hi, src, v.bits, v.tc), dst))
    return Opaque(("raw", tuple(Byte(v, src, j) for j in range(src.itemsize))))


def byteswap_opaque(x, dt):
    """byteswap of an element which is not an integer."""
    dt = np.dtype(dt)
    if dt.kind in "SVUO" or dt.itemsize == 1:
        return x
    if isinstance(x, Opaque) and isinstance(x.tag, tuple):
        if x.tag[0] == "swapped":
            return x.tag[3].v
        if x.tag[0] == "raw":
            return decode(list(x.tag[1])[::-1], native(dt))
    return Swapped(x, native(dt))


# ------------------------------------------------------------ arrays <-> bytes
def _fields(dt):
    return [(n, dt.fields[n][0], dt.fields[n][1]) for n in dt.names]


def item_bytes(a, ix, dt, out):
    """Bytes of element ix of object storage a."""
    if dt.names:
        base = len(out)
        out.extend([0] * dt.itemsize)
        for n, ft, off in _fields(dt):
            sub = []
            item_bytes(a[n], ix, ft, sub)
            out[base + off:base + off + len(sub)] = sub
        return
    if dt.subdtype is not None:
        bdt, shp = dt.subdtype
        s = a[ix]
        for jx in np.ndindex(shp):
            item_bytes(s, jx, bdt, out)
        return
    out.extend(elem_bytes(a[ix], dt))


def array_bytes(a):
    out = []
    for ix in np.ndindex(a._d.shape):
        item_bytes(a._d, ix, a._dt, out)
    return out


def array_to_bytes(a):
    b = array_bytes(a)
    return bytes(b) if not any(isinstance(x, Byte) for x in b) else SymBytes(b)


class SymBytes:
    """bytes with symbolic content."""
    __getattr__ = core.standin(bytes)

    def __init__(self, b):
        self.b = list(b)

    def __len__(self):
        return len(self.b)

    def __getitem__(self, k):
        if isinstance(k, slice):
            b = self.b[k]
            return SymBytes(b) if any(isinstance(x, Byte) for x in b) else bytes(b)
        x = self.b[k]
        if isinstance(x, Byte):
            raise core.Inconclusive("single symbolic byte")
        return x

    def __add__(self, o):
        return SymBytes(self.b + tobytes(o))

    def __eq__(self, o):
        raise core.Inconclusive("comparison of symbolic bytes")

    __hash__ = None


def tobytes(x):
    """List of bytes of anything with a buffer."""
    if isinstance(x, SymBytes):
        return list(x.b)
    if isinstance(x, SMmap):
        return list(x.data)
    if hasattr(x, "_is_sarr"):
        return array_bytes(x)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    if isinstance(x, np.ndarray):
        return list(np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return list(x.tobytes())
    raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)


def _fill(d, ix, dt, bs, pos):
    if dt.names:
        for n, ft, off in _fields(dt):
            _fill(d[n], ix, ft, bs, pos + off)
        return
    if dt.subdtype is not None:
        bdt, shp = dt.subdtype
        s = d[ix]
        for k, jx in enumerate(np.ndindex(shp)):
            _fill(s, jx, bdt, bs, pos + k * bdt.itemsize)
        return
    v = decode(bs[pos:pos + dt.itemsize], dt)
    if ix == () and isinstance(d, np.ndarray) and d.ndim == 0:
        d[()] = v if not isinstance(v, tuple) else sarr._obj0(v)
    else:
        d[ix] = v


def from_bytes(bs, dt, shape):
    dt = np.dtype(dt)
    d = sarr.new_obj(shape, dt=dt)
    for k, ix in enumerate(np.ndindex(d.shape)):
        _fill(d, ix, dt, bs, k * dt.itemsize)
    return SArr(_d=d, _dt=dt)


def ndarray_from_buffer(shape, dt, buffer, offset, strides, order):
    if strides is not None or order not in (None, "C"):
        raise core.Inconclusive("np.ndarray(buffer=) with strides/order")
    shape = sarr.norm_shape(shape)
    offset = int(offset)
    bs = buffer._live() if isinstance(buffer, SMmap) else tobytes(buffer)
    n = int(np.prod(shape, dtype=int)) * dt.itemsize
    if offset < 0 or offset > len(bs) or offset + n > len(bs):
        raise TypeError("buffer is too small for requested array")
    a = from_bytes(bs[offset:offset + n], dt, shape)
    if isinstance(buffer, SMmap):
        a._d.flags.writeable = False
        buffer.exports.append(weakref.ref(a._d))
    return a


def frombuffer(buf, dt, count, offset):
    bs = tobytes(buf)[int(offset):]
    if int(count) < 0:
        if len(bs) % dt.itemsize:
            raise ValueError("buffer size must be a multiple of element size")
        n = len(bs) // dt.itemsize
    else:
        n = int(count)
    if n * dt.itemsize > len(bs):
        raise ValueError("buffer is smaller than requested size")
    a = from_bytes(bs[:n * dt.itemsize], dt, (n,))
    return a


def _file(f, mode):
    """(handle, close it afterwards) for np.tofile / np.fromfile."""
    if isinstance(f, str) or hasattr(f, "__fspath__"):
        raise core.Inconclusive("numpy access to a file by name")
    return (f.h if isinstance(f, TextHandle) else f), False


def tofile(a, f, sep):
    if sep:
        raise core.Inconclusive("tofile as text")
    h, own = _file(f, "wb")
    for b in [array_bytes(a)]:
        h.write(SymBytes(b) if any(isinstance(x, Byte) for x in b) else bytes(b))
    if own:
        h.close()


def fromfile(f, dt, count, sep, offset):
    if sep:
        raise core.Inconclusive("fromfile of text")
    h, own = _file(f, "rb")
    if offset:
        h.seek(offset, 1)
    bs = h.read(-1 if int(count) < 0 else int(count) * dt.itemsize)
    bs = bs.b if isinstance(bs, SymBytes) else list(bs)
    n = len(bs) // dt.itemsize
    if own:
        h.close()
    else:
        h.seek(n * dt.itemsize - len(bs), 1)
    return from_bytes(bs[:n * dt.itemsize], dt, (n,))


# ------------------------------------------------------------ files
class BinFile:
    is_h5 = False

    def __init__(self, data=()):
        self.data = list(data)
        self.nopen = 0


def byte_eq(x, y):
    """Two bytes are equal (SBool or bool)."""
    if isinstance(x, Byte) and isinstance(y, Byte):
        if x.v is y.v and x.j == y.j and x.dt == y.dt:
            return True
        if x.j == y.j and x.dt == y.dt and not isinstance(x.v, SInt):
            return scalars.scalar_eq(typed(x.v, x.dt), typed(y.v, y.dt))
    return scalars.scalar_eq(_byte_int(x), _byte_int(y))


def _byte_int(x):
    if not isinstance(x, Byte):
        return int(x)
    if not isinstance(x.v, SInt):
        raise core.Inconclusive("bits of a symbolic non-integer")
    b = scalars.int_bits(x.v, 8 * x.dt.itemsize)
    return scalars.from_bits(b[8 * x.j:8 * x.j + 8], None)


class Digest:
    """Hash of a byte sequence; equal exactly if the bytes are (collisions are
    assumed not to happen)."""

    def __init__(self, kind, b):
        self.kind, self.b = kind, list(b)

    def same(self, o):
        if self.kind != o.kind or len(self.b) != len(o.b):
            return False
        return scalars.sand(*[byte_eq(x, y) for x, y in zip(self.b, o.b)])


class Blob:
    """Bytes lo..hi of an opaque file (positions may be symbolic)."""
    __getattr__ = core.standin(bytes)
    __hash__ = None

    def __init__(self, f, lo, hi):
        self.f, self.lo, self.hi = f, lo, hi

    def __slen__(self):
        return self.hi - self.lo

    def __len__(self):
        return int(self.hi - self.lo)

    def __bool__(self):
        return bool(self.hi > self.lo)

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray)):
            if len(o):
                raise core.Inconclusive("comparison of opaque bytes")
            return self.lo == self.hi
        if isinstance(o, Blob):
            raise core.Inconclusive("comparison of opaque bytes")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return scalars.snot(r) if is_sym(r) else not r


class BlobFile:
    """File of opaque contents and possibly symbolic size."""
    is_h5 = False

    def __init__(self, name, size, unreadable=False):
        self.name, self.size, self.unreadable = name, size, unreadable


class BlobHandle:
    """Open opaque file."""
    __getattr__ = core.standin(io.BufferedReader, "file")

    def __init__(self, fs, f, name):
        self.fs, self.f, self.name, self.mode = fs, f, name, "rb"
        self.pos, self.closed, self.eof = 0, False, 0
        fs.nopen += 1
        fs.handles.append(self)

    def read(self, n=-1):
        if self.closed:
            raise ValueError("read of closed file")
        if n is None or (not is_sym(n) and n < 0):
            hi = self.f.size
        else:
            hi = scalars.smin(self.pos + n, self.f.size)
        b = Blob(self.f, self.pos, hi)
        if not b:
            self.eof += 1
            if self.eof > 50:
                raise NoProgress("reading on after the end of the file")
        self.pos = hi
        return b

    read1 = read

    def tell(self):
        return self.pos

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.nopen -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        self.close()


class NoProgress(Exception):
    pass


TOKENS = {}         # hash value -> (kind, what was hashed)


def token_ok(tok, kind, f):
    """Is this the hash of the whole of an opaque file?"""
    t = TOKENS.get(tok)
    if t is None or t[0] != kind:
        return False
    pos, cond = 0, []
    for b in t[1]:
        if not isinstance(b, Blob) or b.f is not f:
            if isinstance(b, Blob):
                cond.append(b.lo == b.hi)
                continue
            return False
        e = b.lo == b.hi
        cond.append(scalars.sor(e, b.lo == pos))
        pos = scalars.ite(e, pos, b.hi) if is_sym(e) else pos if e else b.hi
    cond.append(pos == f.size)
    return scalars.sand(*cond)


class _Hash:
    __getattr__ = core.standin(type(hashlib.sha1()), "hash")
    tokens = False

    def __init__(self, kind, data=b"", **kw):
        if kind not in hashlib.algorithms_available:
            raise ValueError("unsupported hash type " + kind)
        self.kind, self.b = kind, []
        self.name = kind
        self.update(data)

    def copy(self):
        h = type(self)(self.kind)
        h.b = list(self.b)
        return h

    def update(self, x):
        if hasattr(x, "_is_sarr") and x.dtype.byteorder == ">" and x.dtype.kind == "O":
            raise TypeError("object")
        self.b += [x] if isinstance(x, Blob) else tobytes(x)

    def hexdigest(self):
        if self.tokens:
            t = "%032x" % (0xfeed0000 + len(TOKENS))
            TOKENS[t] = (self.kind, list(self.b))
            return t
        return Digest(self.kind, self.b)

    digest = hexdigest


class _TokenHash(_Hash):
    tokens = True


class SMmap:
    """Read-only memory map of a whole file."""
    __getattr__ = core.standin(mmap.mmap)
    pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def tell(self):
        self._live()
        return self.pos

    def seek(self, off, whence=0):
        p = int(off) + (0 if whence == 0 else self.pos if whence == 1 else len(self._live()))
        if not 0 <= p <= len(self._live()):
            raise ValueError("seek out of range")
        self.pos = p

    def read(self, n=None):
        d = self._live()
        n = len(d) - self.pos if n is None or int(n) < 0 else int(n)
        b = d[self.pos:self.pos + n]
        self.pos += len(b)
        return SymBytes(b)[:]

    def __init__(self, h):
        self.h = h
        self.data = h.f.data
        self.closed = False
        self.exports = []

    def _live(self):
        if self.closed:
            raise ValueError("mmap closed or invalid")
        return self.data

    def size(self):
        return len(self._live())

    def __len__(self):
        return len(self._live())

    def close(self):
        if not self.closed and any(r() is not None for r in self.exports):
            raise BufferError("cannot close exported pointers exist")
        self.closed = True

    def __getitem__(self, k):
        return SymBytes(self._live())[k]


class Handle:
    """Binary file object."""
    __getattr__ = core.standin(io.BufferedRandom, "file")

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return not self.mode.startswith("r") or "+" in self.mode

    def seekable(self):
        return True

    def readinto(self, buf):
        b = self.read(len(tobytes(buf)))
        if hasattr(buf, "_is_sarr"):
            n = len(b) // buf.dtype.itemsize
            if n * buf.dtype.itemsize != len(b) or not buf.flags.c_contiguous:
                raise core.Inconclusive("readinto of part of an element")
            buf.reshape(-1)[:n] = from_bytes(tobytes(b), buf.dtype, (n,))
        else:
            if isinstance(b, SymBytes):
                raise core.Inconclusive("readinto of symbolic bytes")
            memoryview(buf).cast("B")[:len(b)] = b
        return len(b)

    def truncate(self, size=None):
        size = self.pos if size is None else int(size)
        d = self.f.data
        if size < len(d):
            del d[size:]
        else:
            d.extend([0] * (size - len(d)))
        return size

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def __init__(self, fs, f, name, mode):
        self.fs, self.f, self.name, self.mode = fs, f, name, mode
        self.pos = len(f.data) if "a" in mode else 0
        self.closed = False
        fs.nopen += 1
        fs.maxopen = max(fs.maxopen, fs.nopen)
        fs.handles.append(self)

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def fileno(self):
        self._chk()
        return self.fs.handles.index(self) + 1000

    def read(self, n=-1):
        self._chk()
        if "r" not in self.mode and "+" not in self.mode:
            raise io.UnsupportedOperation("not readable")
        n = len(self.f.data) - self.pos if n is None or int(n) < 0 else int(n)
        b = self.f.data[self.pos:self.pos + n]
        self.pos += len(b)
        return SymBytes(b) if any(isinstance(x, Byte) for x in b) else bytes(b)

    def write(self, x):
        self._chk()
        if self.mode.startswith("r") and "+" not in self.mode:
            raise io.UnsupportedOperation("not writable")
        b = tobytes(x)
        d = self.f.data
        if len(d) < self.pos:
            d.extend([0] * (self.pos - len(d)))
        d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, off, whence=0):
        self._chk()
        self.pos = int(off) + (0 if whence == 0 else self.pos if whence == 1 else len(self.f.data))
        return self.pos

    def tell(self):
        self._chk()
        return self.pos

    def flush(self):
        self._chk()

    def close(self):
        if not self.closed:
            self.closed = True
            self.fs.nopen -= 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        if not self.closed:
            self.closed = True
            self.fs.nopen -= 1


class FS:
    """Fake file system."""

    def __init__(self, h5version=(1, 10, 10), tokens=False):
        _Hash_ = _TokenHash if tokens else _Hash
        self.dirs = set()       # directories which exist even if empty
        self.dbs = {}
        self.files = {}
        self.handles = []
        self.nopen = 0
        self.maxopen = 0
        self.log = []
        self.nmaps = 0
        self.MODULES = dict(h5py=fakeh5.make_module(self, h5version), mmap=self._mmap_module(), os=self._os_module())
        h = types.ModuleType("hashlib")
        h.new = _Hash_

        def file_digest(fileobj, digest, **k):
            d = digest() if callable(digest) else _Hash_(digest)
            d.update(fileobj.read())
            return d
        h.file_digest = file_digest
        for n in ("sha1", "md5", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s"):
            setattr(h, n, lambda d=b"", n=n, **k: _Hash_(n, d))
        h.algorithms_available = hashlib.algorithms_available
        h.algorithms_guaranteed = hashlib.algorithms_guaranteed
        h.__getattr__ = fakeh5._module_getattr(hashlib, "hashlib")
        self.MODULES["struct"] = _struct_module()
        self.MODULES["hashlib"] = h
        g = types.ModuleType("glob")
        g.glob = self._glob
        g.iglob = lambda *a, **k: iter(self._glob(*a, **k))
        g.escape = glob.escape
        self.MODULES["glob"] = g
        self.MODULES["os.path"] = self.MODULES["os"].path
        self.MODULES["sqlite3"] = self._sqlite_module()

    def _dirs(self):
        """Directories which exist because of the files in them."""
        out = set()
        for p in list(self.files) + [d + "/" for d in self.dirs]:
            while "/" in p[1:]:
                p = p[:p.rindex("/")]
                out.add(p)
        return out

    def _listdir(self, d):
        d = self.norm(d)
        names = sorted({p[len(d) + 1:].split("/")[0] for p in set(self.files) | self.dirs if p.startswith(d + "/")})
        if not names and d not in self._dirs():
            raise FileNotFoundError(2, "No such file or directory", d)
        return names

    def _walk(self, top, topdown=True, onerror=None, followlinks=False):
        if not topdown:
            raise core.Inconclusive("os.walk(topdown=False)")
        try:
            names = self._listdir(top)
        except OSError as e:
            if onerror is not None:
                onerror(e)
            return
        isdir = self._dirs()
        d = [n for n in names if self.norm(os.path.join(top, n)) in isdir]
        yield top, d, [n for n in names if n not in d]
        for n in d:
            yield from self._walk(os.path.join(top, n), topdown, onerror, followlinks)

    def _sqlite_module(self):
        m = types.ModuleType("sqlite3")
        m.__dict__.update({k: v for k, v in sqlite3.__dict__.items() if not k.startswith("__")})
        fs = self

        class Conn:
            """Connection to a data base which outlives it."""

            def __init__(self, c):
                self.c = c

            def __getattr__(self, n):
                return getattr(self.c, n)

            def __enter__(self):
                return self.c.__enter__()

            def __exit__(self, *a):
                return self.c.__exit__(*a)

            def close(self):
                try:
                    self.c.rollback()
                except sqlite3.Error:       # (the whole data base is gone already)
                    pass

        def connect(name, *a, **k):
            p = fs.norm(name)
            if p not in fs.dbs:
                fs.dbs[p] = sqlite3.connect(":memory:", check_same_thread=False)
            fs.dbs[p].rollback()
            return Conn(fs.dbs[p])
        m.connect = connect
        return m

    def _glob(self, pattern, *a, **k):
        if a or any(k.values()):
            raise core.Inconclusive("glob options")
        out = []
        if not glob.has_magic(pattern):
            return [pattern] if self.norm(pattern) in set(self.files) | self._dirs() else []
        want = pattern.split("/")
        for p in set(self.files) | self._dirs():
            # the parts before the first pattern are returned as given
            for base, part in ((p.split("/"), want), (os.path.relpath(p, "/fs").split("/"), want)):
                if len(base) == len(part) and all(fnmatch.fnmatchcase(x, y) if glob.has_magic(y) else x == y
                                                  for x, y in zip(base, part)):
                    out.append("/".join(base))
                    break
            else:
                # path with . or .. or // in front of the first pattern
                i = next(i for i, y in enumerate(want) if glob.has_magic(y))
                base = self.norm("/".join(want[:i])) if i else "/fs"
                if p.startswith(base + "/"):
                    rest = p[len(base) + 1:].split("/")
                    if len(rest) == len(want) - i and all(fnmatch.fnmatchcase(x, y) for x, y in zip(rest, want[i:])):
                        out.append("/".join(want[:i] + rest))
        return sorted(out)

    def norm(self, name):
        if isinstance(name, bytes):
            name = name.decode()
        if not isinstance(name, str):
            name = os.fspath(name)
        return os.path.normpath(os.path.join("/fs", name))

    def _get(self, name):
        f = self.files.get(self.norm(name))
        if f is None:
            raise FileNotFoundError(2, "No such file or directory", name)
        return f

    def open(self, name, mode="r", *a, **k):
        m = mode.replace("t", "")
        if not isinstance(name, str) or not self._mine(name):
            return builtins.open(name, mode, *a, **k)
        if len(set(m)) != len(m) or any(c not in "rwxab+" for c in m) or sum(c in m for c in "rwxa") != 1:
            raise ValueError("invalid mode: %r" % mode)
        p = self.norm(name)
        f = self.files.get(p)
        if p not in self.files and p in self._dirs():
            raise IsADirectoryError(21, "Is a directory", name)
        if "r" in m and (f is None or isinstance(f, BlobFile) and f.unreadable):
            raise FileNotFoundError(2, "No such file or directory", name)
        if isinstance(f, BlobFile):
            if m != "rb" and m != "br":
                raise core.Inconclusive("opaque file opened as %r" % m)
            return BlobHandle(self, f, p)
        if "x" in m and f is not None:
            raise FileExistsError(17, "File exists", name)
        if "w" in m or f is None:
            f = self.files[p] = BinFile()
        if f.is_h5:
            raise core.Inconclusive("plain open of an HDF5 file")
        h = Handle(self, f, p, m)
        if "b" not in m:
            return TextHandle(h)
        return h

    def _mine(self, name):
        return True

    def _mmap_module(self):
        m = types.ModuleType("mmap")
        m.ACCESS_READ, m.ACCESS_WRITE, m.ACCESS_COPY, m.PROT_READ, m.MAP_SHARED, m.MAP_PRIVATE = 1, 2, 3, 1, 1, 2
        fs = self

        def mk(fileno, length, *a, access=None, **k):
            h = fs.handles[fileno - 1000]
            if length != 0:
                raise core.Inconclusive("partial mmap")
            if len(h.f.data) == 0:
                raise ValueError("cannot mmap an empty file")
            fs.nmaps += 1
            return SMmap(h)
        m.mmap = mk
        return m

    def _os_module(self):
        m = types.ModuleType("os")
        m.__dict__.update({k: v for k, v in os.__dict__.items() if not k.startswith("__")})
        fs = self

        def stat(name, *a, **k):
            f = fs._get(name)
            return types.SimpleNamespace(st_size=len(f.data) if not f.is_h5 else 1)

        def remove(name):
            fs._get(name)
            del fs.files[fs.norm(name)]
        m.stat = stat
        m.remove = m.unlink = remove
        path = types.ModuleType("posixpath")
        path.__dict__.update({k: v for k, v in os.path.__dict__.items() if not k.startswith("__")})
        path.isfile = lambda n: fs.norm(n) in fs.files
        path.isdir = lambda n: fs.norm(n) in fs._dirs()
        path.abspath = path.realpath = lambda n, **k: fs.norm(n)
        path.relpath = lambda n, start=".": os.path.relpath(fs.norm(n), fs.norm(start))
        path.islink = lambda n: False
        m.getcwd = lambda: "/fs"
        m.walk = fs._walk
        path.exists = path.lexists = lambda n: path.isfile(n) or path.isdir(n)
        m.listdir = fs._listdir
        path.getsize = lambda n: stat(n).st_size
        m.path = path
        for n in ("system", "popen", "kill", "rename", "replace", "rmdir", "chmod", "scandir"):
            setattr(m, n, _refuse(n))
        m.makedirs = m.mkdir = lambda *a, **k: None
        return m


def _struct_module():
    m = types.ModuleType("struct")
    m.__dict__.update({k: v for k, v in struct.__dict__.items() if not k.startswith("__")})

    def fields(fmt):
        """Format string as a list of (dtype, offset), and the total size."""
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
        order = fmt[0] if fmt[:1] in "<>=!@" and fmt else "@"
        body = fmt[1:] if fmt[:1] and fmt[0] in "<>=!@" else fmt
        out, pos, num = [], 0, ""
        for c in body:
            if c.isdigit():
                num += c
                continue
            if c.isspace():
                continue
            n, num = int(num) if num else 1, ""
            if c == "x":
                pos += n
                continue
            if c not in "bBhHiIlLqQfd?":
                raise core.Inconclusive("struct format %r" % fmt)
            size = struct.calcsize((order if order != "@" else "@") + c)
            dt = np.dtype(("?" if c == "?" else ("f" if c in "fd" else "i" if c.islower() else "u") + str(size)))
            if order in ">!":
                dt = dt.newbyteorder(">")
            for _ in range(n):
                if order == "@":
                    pos += -pos % size
                out.append((dt, pos))
                pos += size
        return out, pos

    def unpack_from(fmt, buf, offset=0):
        bs = tobytes(buf)
        if not any(isinstance(b, Byte) for b in bs):
            return struct.unpack_from(fmt, bytes(bs), offset)
        fs, size = fields(fmt)
        if len(bs) - int(offset) < size:
            raise struct.error("unpack_from requires a buffer of at least %d bytes" % (size + int(offset)))
        out = []
        for dt, pos in fs:
            a = from_bytes(bs[int(offset) + pos:int(offset) + pos + dt.itemsize], dt, (1,)).tolist()
            out.append(a[0])
        return tuple(out)

    def unpack(fmt, buf):
        if len(tobytes(buf)) != struct.calcsize(fmt):
            raise struct.error("unpack requires a buffer of %d bytes" % struct.calcsize(fmt))
        return unpack_from(fmt, buf)

    def pack(fmt, *args):
        if not any(is_sym(a) for a in args):
            return struct.pack(fmt, *args)
        fs, size = fields(fmt)
        if len(fs) != len(args):
            raise struct.error("pack expected %d items for packing (got %d)" % (len(fs), len(args)))
        bs = [0] * size
        for (dt, pos), v in zip(fs, args):
            bs[pos:pos + dt.itemsize] = array_bytes(sarr.asarr([v]).astype(dt))
        return SymBytes(bs)

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, struct.calcsize(fmt)

        def unpack(self, b):
            return unpack(self.format, b)

        def unpack_from(self, b, offset=0):
            return unpack_from(self.format, b, offset)

        def pack(self, *a):
            return pack(self.format, *a)
    m.unpack, m.unpack_from, m.pack, m.Struct = unpack, unpack_from, pack, Struct
    m.pack_into = m.iter_unpack = _refuse("struct")
    return m


def _refuse(n):
    def f(*a, **k):
        raise core.Inconclusive("os." + n)
    return f


class TextHandle:
    """Text mode wrapper."""
    __getattr__ = core.standin(io.TextIOWrapper, "file")

    closed = property(lambda self: self.h.closed)
    name = property(lambda self: self.h.name)
    mode = property(lambda self: self.h.mode)

    def flush(self):
        self.h.flush()

    def tell(self):
        self.h._chk()
        return self.pos

    def seek(self, off, whence=0):
        self.h._chk()
        if (whence, int(off)) == (2, 0):
            self.pos = len(self._text())
        elif whence == 0:
            self.pos = int(off)
        else:
            raise core.Inconclusive("seek in a text file")
        return self.pos

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def __init__(self, h):
        self.h = h
        self.pos = 0

    def _text(self):
        self.h._chk()
        if any(isinstance(x, Byte) for x in self.h.f.data):
            raise core.Inconclusive("text of symbolic bytes")
        return bytes(self.h.f.data).decode()

    def read(self, n=-1):
        s = self._text()[self.pos:]
        s = s if n is None or n < 0 else s[:n]
        self.pos += len(s)
        return s

    def readline(self):
        s = self._text()[self.pos:]
        i = s.find("\n")
        s = s if i < 0 else s[:i + 1]
        self.pos += len(s)
        return s

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            s = self.readline()
            if not s:
                return
            yield s

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.h.write(s.encode())
        return len(s)

    def close(self):
        self.h.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
