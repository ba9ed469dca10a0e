"""In-memory stand-in for h5py (high level, the low level calls the repository
uses, and parallel access with the collective semantics of HDF5/h5py)."""
import types
from collections.abc import MutableMapping

import h5py
import numpy as np

from . import sarr, core
from .sarr import SArr, asarr


TRANSFERS = []      # (operation, bytes) of every collective dataset transfer


class Node:
    def __init__(self):
        self.attrs = {}


class GNode(Node):
    def __init__(self):
        Node.__init__(self)
        self.items = {}


class DNode(Node):
    def __init__(self, shape, dt, data=None, opts=None):
        Node.__init__(self)
        self.dt = np.dtype(dt)
        if data is None:
            data = sarr.zeros(shape, dtype=self.dt)
        self.data = data
        self.opts = dict(opts or {})

    @property
    def shape(self):
        return self.data.shape


class H5Root:
    """Content of one HDF5 file."""
    is_h5 = True

    def __init__(self):
        self.root = GNode()
        self.open = 0           # number of open handles
        self.wopen = 0


def split(path):
    return [p for p in path.split("/") if p not in ("", ".")]


def text(name):
    return name.decode() if isinstance(name, bytes) else name


class Attrs(MutableMapping):
    __getattr__ = core.standin(h5py.AttributeManager)

    def __init__(self, obj):
        self._o = obj

    def _d(self):
        self._o._check()
        return self._o._n.attrs

    def __getitem__(self, k):
        d = self._d()
        if k not in d:
            raise KeyError("Can't open attribute (can't locate attribute: %r)" % k)
        v = d[k]
        if hasattr(v, "_is_sarr"):
            return v._scalar0() if v.ndim == 0 and not v.dtype.names else v.copy()
        return v

    def __setitem__(self, k, v):
        self._o._file._meta("attr", (self._o.name, k), lambda: None)
        self._o._file._writable()
        if not isinstance(v, (str, bytes)):
            v = asarr(v).copy()
        self._d()[k] = v

    create = lambda self, name, data, shape=None, dtype=None: self.__setitem__(
        name, data if dtype is None else asarr(data).astype(dtype))

    def modify(self, k, v):
        self[k] = v

    def __delitem__(self, k):
        self._o._file._meta("attr", (self._o.name, k), lambda: None)
        self._o._file._writable()
        if k not in self._d():
            raise KeyError("Can't delete attribute (can't locate attribute: %r)" % k)
        del self._d()[k]

    __eq__ = object.__eq__
    __hash__ = object.__hash__

    def __contains__(self, k):
        return k in self._d()

    def __iter__(self):
        return iter(sorted(self._d()))

    def __len__(self):
        return len(self._d())

    def keys(self):
        return sorted(self._d())

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def get(self, k, default=None):
        return self[k] if k in self else default


class Obj:
    def _check(self):
        if self._file._closed:
            raise ValueError("Invalid location identifier (file is closed)")

    def __bool__(self):
        return not self._file._closed

    @property
    def attrs(self):
        return Attrs(self)

    @property
    def file(self):
        return self._file

    def __eq__(self, o):
        return isinstance(o, Obj) and o._n is self._n

    def __hash__(self):
        return id(self._n)


class _GID:
    def __init__(self, g):
        self.g = g


class Group(Obj):
    __getattr__ = core.standin(h5py.Group)

    def __init__(self, file, node, name="/"):
        if isinstance(file, _GID):
            file, node, name = file.g._file, file.g._n, file.g.name
        self._file = file
        self._n = node
        self.name = name

    @property
    def id(self):
        return _GID(self)

    def _find(self, path):
        self._check()
        n = self._file._root.root if path.startswith("/") else self._n
        for p in split(path):
            if not isinstance(n, GNode) or p not in n.items:
                return None
            n = n.items[p]
        return n

    def _wrap(self, n, path):
        full = path if path.startswith("/") else (self.name.rstrip("/") + "/" + path)
        full = "/" + "/".join(split(full))
        return Group(self._file, n, full) if isinstance(n, GNode) else Dataset(self._file, n, full)

    def __getitem__(self, path):
        path = text(path)
        n = self._find(path)
        if n is None:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % path)
        return self._wrap(n, path)

    def get(self, path, default=None):
        return self[path] if path in self else default

    def __contains__(self, path):
        return self._find(text(path)) is not None

    def __iter__(self):
        self._check()
        return iter(sorted(self._n.items))

    def __len__(self):
        self._check()
        return len(self._n.items)

    def keys(self):
        return list(self)

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def visititems(self, f):
        def rec(n, pre):
            for k in sorted(n.items):
                p = pre + k
                r = f(p, self._wrap(n.items[k], p))
                if r is not None:
                    return r
                if isinstance(n.items[k], GNode):
                    r = rec(n.items[k], p + "/")
                    if r is not None:
                        return r
        return rec(self._n, "")

    def visit(self, f):
        return self.visititems(lambda p, o: f(p))

    def _mk(self, path, make, what):
        self._check()
        self._file._writable()
        path = text(path)

        def do():
            n = self._file._root.root if path.startswith("/") else self._n
            parts = split(path)
            for p in parts[:-1]:
                n = n.items.setdefault(p, GNode())
                if not isinstance(n, GNode):
                    raise ValueError("Unable to create group (component is a dataset)")
            if parts[-1] in n.items:
                raise ValueError("Unable to create %s (name already exists)" % what)
            n.items[parts[-1]] = make()
        self._file._meta("create " + what, (self.name, path), do)
        return self[path]

    def create_group(self, name, track_order=None):
        return self._mk(name, GNode, "group")

    def copy(self, source, dest, name=None, **kw):
        """Deep copy of an object, as h5py's Group.copy."""
        if kw:
            raise core.Inconclusive("Group.copy options")
        src = self[source] if isinstance(source, (str, bytes)) else source
        if isinstance(dest, (str, bytes)):
            dest, name = self, text(dest)
        if name is None:
            name = split(src.name)[-1]

        def dup(n):
            if isinstance(n, GNode):
                c = GNode()
                c.items = {k: dup(v) for k, v in n.items.items()}
            else:
                c = DNode(n.shape, n.dt, SArr(_d=n.data._d.copy(), _dt=n.dt), n.opts) if type(n) is DNode else n
            c.attrs = dict(n.attrs)
            return c
        dest._mk(name, lambda: dup(src._n), "copy")

    @property
    def parent(self):
        return self._file["/".join(split(self.name)[:-1]) or "/"]

    def setdefault(self, name, default=None):
        if name not in self:
            self[name] = default
        return self[name]

    def update(self, other=(), **kw):
        for k, v in list(dict(other).items()) + list(kw.items()):
            self[k] = v

    def pop(self, name, *default):
        if name not in self and default:
            return default[0]
        r = self[name]
        del self[name]
        return r

    def clear(self):
        for k in list(self):
            del self[k]

    def move(self, source, dest):
        n = self._find(text(source))
        if n is None:
            raise ValueError("Unable to move link (name doesn't exist)")
        self._mk(dest, lambda: n, "link")
        del self[source]

    def create_dataset_like(self, name, other, **kw):
        o = dict(shape=other.shape, dtype=other.dtype, **other._n.opts)
        o.update(kw)
        return self.create_dataset(name, **o)

    def require_dataset(self, name, shape, dtype, exact=False, **kw):
        if name not in self:
            return self.create_dataset(name, shape, dtype, **kw)
        d = self[name]
        if not isinstance(d, Dataset):
            raise TypeError("Incompatible object (Group) already exists")
        if tuple(d.shape) != tuple(shape if isinstance(shape, (tuple, list)) else (shape,)):
            raise TypeError("Shapes do not match")
        if (exact and d.dtype != np.dtype(dtype)) or not np.can_cast(np.dtype(dtype), d.dtype):
            raise TypeError("Datatypes cannot be safely cast")
        return d

    def require_group(self, name):
        if name in self:
            g = self[name]
            if not isinstance(g, Group):
                raise TypeError("Incompatible object (Dataset) already exists")
            return g
        return self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **opts):
        opts = {k: v for k, v in opts.items() if v not in (None, False)}
        if data is not None:
            if isinstance(data, (str, bytes)):
                a = data
                node = lambda: StrNode(a)
                return self._mk(name, node, "dataset")
            a = asarr(data)
            if dtype is not None:
                a = a.astype(dtype)
            if shape is not None:
                shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
                a = a.reshape(tuple(int(s) for s in shape))
        else:
            shape = (shape,) if not isinstance(shape, (tuple, list)) else shape
            shape = tuple(int(s) for s in shape)
            a = None
        sh = a.shape if a is not None else shape
        _check_chunks(sh, opts)
        dt = np.dtype(a.dtype if a is not None else (dtype if dtype is not None else "f4"))
        if dt.kind == "U":
            raise TypeError("No conversion path for dtype: %r" % dt)
        return self._mk(name, lambda: DNode(sh, dt, SArr(_d=a._d.copy(), _dt=dt) if a is not None else None, opts),
                        "dataset")

    def __setitem__(self, name, v):
        if isinstance(v, Obj):
            raise core.Inconclusive("hard links")
        self.create_dataset(name, data=v)

    def __delitem__(self, name):
        self._file._writable()
        parts = split(name)
        n = self._find("/".join(parts[:-1])) if len(parts) > 1 else self._n
        if n is None or parts[-1] not in n.items:
            raise KeyError("Couldn't delete link")
        self._file._meta("delete", (self.name, name), lambda: n.items.pop(parts[-1]))


def _check_chunks(shape, opts):
    ch = opts.get("chunks")
    if any(opts.get(k) for k in ("compression", "shuffle")) or ch not in (None, False):
        if shape == ():
            raise TypeError("Scalar datasets don't support chunk/filter options")
    if isinstance(ch, (tuple, list)):
        if len(ch) != len(shape):
            raise ValueError("Chunk shape must not be greater than data shape (rank)")
        for c, s in zip(ch, shape):
            if c > s:
                raise ValueError("Chunk shape must not be greater than data shape in any dimension")
            if c < 1:
                raise ValueError("All chunk dimensions must be positive")


class StrNode(DNode):
    def __init__(self, s):
        Node.__init__(self)
        self.dt = np.dtype(object)
        self.s = s
        d = np.empty((), dtype=object)
        d[()] = s
        self.data = SArr(_d=d, _dt=np.dtype(object))
        self.opts = {}


class _Collective:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = self.d._coll
        self.d._coll = True

    def __exit__(self, *a):
        self.d._coll = self.old


class _Fields:
    def __init__(self, d, names):
        self.d, self.names = d, names

    def __getitem__(self, k):
        return self.d[k][self.names]


class _AsType:
    def __init__(self, d, dt):
        self.d, self.dt = d, np.dtype(dt)

    def __getitem__(self, k):
        return self.d[k].astype(self.dt)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Dataset(Obj):
    __getattr__ = core.standin(h5py.Dataset)

    def __init__(self, file, node=None, name=None):
        if isinstance(file, DID):
            d = file
            file, node, name = d._file, d._n, d._name
        self._file = file
        self._n = node
        self.name = name
        self._coll = False

    @property
    def id(self):
        self._check()
        return DID(self._file, self._n, self.name)

    @property
    def shape(self):
        self._check()
        return self._n.shape

    @property
    def dtype(self):
        self._check()
        return self._n.dt

    @property
    def size(self):
        return self._n.data.size

    @property
    def ndim(self):
        return self._n.data.ndim

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def chunks(self):
        return self._n.opts.get("chunks")

    @property
    def compression(self):
        return self._n.opts.get("compression")

    @property
    def compression_opts(self):
        return self._n.opts.get("compression_opts", 4 if self.compression == "gzip" else None)

    @property
    def shuffle(self):
        return bool(self._n.opts.get("shuffle"))

    @property
    def fletcher32(self):
        return bool(self._n.opts.get("fletcher32"))

    @property
    def maxshape(self):
        return self._n.opts.get("maxshape", self.shape)

    def flush(self):
        self._file.flush()

    def asstr(self, *a, **k):
        if isinstance(self._n, StrNode):
            return {(): self._n.s}
        raise core.Inconclusive("asstr of an array")

    def fields(self, names):
        return _Fields(self, names)

    @property
    def parent(self):
        return self._file["/".join(split(self.name)[:-1]) or "/"]

    @property
    def collective(self):
        return _Collective(self)

    def astype(self, dt):
        return _AsType(self, dt)

    def __len__(self):
        s = self.shape
        if len(s) == 0:
            raise TypeError("Attempt to take len() of scalar dataset")
        return s[0]

    len = __len__

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array__(self, dtype=None):
        a = self._n.data.__array__()
        return a if dtype is None else a.astype(dtype)

    def to_sarr(self):
        return self._n.data.copy()

    def _args(self, args):
        args = args if isinstance(args, tuple) else (args,)
        out = []
        for a in args:
            if isinstance(a, slice):
                if a.step is not None and int(a.step) < 1:
                    raise ValueError("Step must be >= 1 (got %s)" % a.step)
                for x in (a.start, a.stop):
                    if x is not None and not hasattr(x, "__index__"):
                        raise TypeError("slice indices must be integers")
            elif (isinstance(a, list) or hasattr(a, "_is_sarr") or isinstance(a, np.ndarray)):
                if getattr(a, "dtype", None) != np.dtype(bool) and getattr(a, "ndim", 1) > 0:
                    l = [int(x) for x in (a.elems() if hasattr(a, "_is_sarr") else a)]
                    if any(y <= x for x, y in zip(l, l[1:])):
                        raise TypeError("Indexing elements must be in increasing order")
                    a = l
            out.append(a)
        return tuple(out)

    def _fast(self):
        return self._n.dt.kind in "iuf" and not isinstance(self._n, StrNode)

    def __getitem__(self, args):
        self._check()
        if isinstance(args, str):
            return self._n.data[args].copy()
        names = None
        if isinstance(args, tuple) and any(isinstance(a, str) for a in args):
            names = [a for a in args if isinstance(a, str)]
            args = tuple(a for a in args if not isinstance(a, str))
            names = names[0] if len(names) == 1 else names
        if isinstance(self._n, StrNode):
            s = self._n.s
            return s.encode() if isinstance(s, str) else s
        args = self._args(args)
        src = self._n.data if names is None else self._n.data[names]
        r = src[args]
        n = r.size if hasattr(r, "_is_sarr") else 1
        # like h5py 3.10: the fast path for integers and floats ignores the collective setting,
        # otherwise zero sized reads are omitted
        if self._coll and n > 0 and not self._fast():
            TRANSFERS.append(("read", n * src.dtype.itemsize))
            self._file._sync("read", self.name)
        if hasattr(r, "_is_sarr"):
            r = r.copy()
        return r

    def __setitem__(self, args, v):
        self._check()
        self._file._writable()
        if isinstance(args, str):
            self._n.data[args] = v
            return
        args = self._args(args)
        cur = self._n.data[args]
        n = cur.size if hasattr(cur, "_is_sarr") else 1
        v = asarr(v)
        if n == 0 and v.size == 0:
            # the high level interface omits zero size writes
            return
        if hasattr(cur, "_is_sarr"):
            try:
                np.broadcast_shapes(v.shape, cur.shape)
                ok = np.broadcast_shapes(v.shape, cur.shape) == cur.shape
            except ValueError:
                ok = False
            if not ok:
                if v.size == n and tuple(s for s in v.shape if s != 1) == tuple(s for s in cur.shape if s != 1):
                    v = v.reshape(cur.shape)
                else:
                    raise TypeError("Can't broadcast %s -> %s" % (v.shape, cur.shape))
        if self._coll:
            self._file._sync("write", self.name)
        self._n.data[args] = v

    def write_direct(self, source, source_sel=None, dest_sel=None):
        s = source if source_sel is None else source[source_sel]
        self[dest_sel if dest_sel is not None else Ellipsis] = s

    def read_direct(self, dest, source_sel=None, dest_sel=None):
        self._check()
        v = self[source_sel if source_sel is not None else Ellipsis]
        dest[dest_sel if dest_sel is not None else Ellipsis] = v

    def resize(self, size, axis=None):
        raise core.Inconclusive("resize")


class File(Group):
    __getattr__ = core.standin(h5py.File)

    def __init__(self, name, mode="r", driver=None, comm=None, info=None, **kw):
        fs = self._fs
        if hasattr(name, "seek"):       # file object
            fs.keep = getattr(fs, "keep", []) + [name]
            name = "filelike/%x" % id(name)
        self.filename = name = fs.norm(name)
        self.mode_req = mode
        if mode not in ("r", "r+", "w", "w-", "x", "a"):
            raise ValueError("Invalid mode; must be one of r, r+, w, w-, x, a")
        if driver == "mpio" and comm is None:
            raise ValueError("mpio driver without communicator")
        self._comm = comm.Dup() if driver == "mpio" and comm.Get_size() > 1 else None
        self._closed = False

        def do():
            ex = fs.files.get(name)
            if mode in ("r", "r+"):
                if ex is None:
                    raise FileNotFoundError("[Errno 2] Unable to open file (unable to open file: name = '%s')" % name)
                if not getattr(ex, "is_h5", False):
                    raise OSError("Unable to open file (file signature not found)")
            elif mode in ("w-", "x"):
                if ex is not None:
                    raise FileExistsError("[Errno 17] Unable to create file")
                fs.files[name] = H5Root()
            elif mode == "w":
                if ex is not None and getattr(ex, "open", 0):
                    raise BlockingIOError("Unable to create file (unable to truncate a file which is already open)")
                fs.files[name] = H5Root()
            elif ex is None:
                fs.files[name] = H5Root()
            elif not getattr(ex, "is_h5", False):
                raise OSError("Unable to open file (file signature not found)")
        self._wr = mode != "r"
        self._root = None
        self._sharedop("open", (name, mode), do)
        root = fs.files[name]
        if self._comm is None:
            if root.wopen or (self._wr and root.open):
                raise BlockingIOError("Unable to open file (unable to lock file '%s': in use)" % name)
        root.open += 1
        root.wopen += bool(self._wr)
        self._root = root
        self._n = root.root
        self.name = "/"
        self._file = self
        fs.log.append(("open", name, mode))

    @property
    def mode(self):
        return "r+" if self._wr else "r"

    def _writable(self):
        self._check()
        if not self._wr:
            raise ValueError("Unable to modify (no write intent on file)")

    # --- collective operations (on a duplicate of the communicator, like HDF5)
    def _sync(self, op, key, do=lambda: None):
        c = self._comm
        if c is None or c.Get_size() == 1:
            return do()

        def comp(args):
            if any(x != args[0] for x in args):
                return [RuntimeError("collective HDF5 calls do not match between ranks: %s" % (args,))] * len(args)
            try:
                do()
            except Exception as x:      # noqa: every rank sees the failure
                return [x] * len(args)
            return [None] * len(args)
        r = c._coll("HDF5 " + op, (self.filename, repr(key)), comp)
        if r is not None:
            raise r

    def _sharedop(self, op, key, do):
        """Something done once by all ranks together."""
        self._sync(op, key, do)

    def _meta(self, op, key, do):
        self._sharedop(op, key, do)

    def flush(self):
        self._sync("flush", "")

    def close(self):
        if not self._closed:
            self._sync("close", "")
            self._closed = True
            if self._root is not None:
                self._root.open -= 1
                self._root.wopen -= bool(self._wr)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------ low level
class Space:
    __getattr__ = core.standin(h5py.h5s.SpaceID)

    def __init__(self, shape):
        self.shape = tuple(int(s) for s in shape)
        self.sel = "all"

    def select_hyperslab(self, start, count, stride=None, block=None, op=0):
        start = tuple(int(x) for x in start)
        count = tuple(int(x) for x in count)
        if len(start) != len(self.shape) or len(count) != len(self.shape):
            raise TypeError("select_hyperslab: wrong number of dimensions")
        if stride is not None or block is not None or op != 0:
            raise core.Inconclusive("hyperslab options")
        if any(x < 0 for x in start + count):
            raise ValueError("negative hyperslab")
        self.sel = tuple(slice(s, s + c) for s, c in zip(start, count))

    def select_none(self):
        self.sel = "none"

    def select_all(self):
        self.sel = "all"

    def get_simple_extent_dims(self):
        return self.shape

    def get_simple_extent_ndims(self):
        return len(self.shape)

    def get_simple_extent_npoints(self):
        return int(np.prod(self.shape, dtype=int))

    def get_select_npoints(self):
        if self.sel == "none":
            return 0
        if self.sel == "all":
            return self.get_simple_extent_npoints()
        return int(np.prod([s.stop - s.start for s in self.sel], dtype=int))

    def copy(self):
        s = Space(self.shape)
        s.sel = self.sel
        return s

    def check(self):
        if isinstance(self.sel, tuple):
            for s, n in zip(self.sel, self.shape):
                if s.stop > n and s.stop > s.start:
                    raise OSError("Can't access data (selection+offset not within extent)")


ALL = "H5S_ALL"


def _resolve(sp, shape):
    if sp is ALL or sp is None:
        sp = Space(shape)
    sp.check()
    return sp


class DID:
    __getattr__ = core.standin(h5py.h5d.DatasetID)

    rank = property(lambda self: len(self._n.shape))

    def __init__(self, file, node, name):
        self._file, self._n, self._name = file, node, name

    @property
    def shape(self):
        return self._n.shape

    @property
    def dtype(self):
        return self._n.dt

    def get_space(self):
        return Space(self._n.shape)

    def get_type(self):
        return TypeID(self._n.dt)

    def _spaces(self, ms, fs, arr):
        if self._file._closed:
            raise ValueError("Not a dataset (file is closed)")
        fs = _resolve(fs, self._n.shape)
        ms = _resolve(ms, arr.shape) if ms is not ALL else fs.copy()
        if fs.shape != self._n.shape:
            raise ValueError("file dataspace does not match the dataset")
        if ms.get_select_npoints() != fs.get_select_npoints():
            raise OSError("Can't access data (src and dest dataspaces have different number of elements selected)")
        if not hasattr(arr, "_is_sarr"):
            raise TypeError("Only NumPy arrays can be used")
        if not arr.flags.c_contiguous:
            raise TypeError("Array must be C-contiguous")
        if int(np.prod(ms.shape, dtype=int)) > arr.size and ms.get_select_npoints() > 0:
            raise ValueError("memory space larger than the buffer")
        return ms, fs

    def write(self, mspace, fspace, arr, mtype=None, dxpl=None):
        self._file._writable()
        ms, fs = self._spaces(mspace, fspace, arr)
        if dxpl is not None and dxpl.coll:
            TRANSFERS.append(("write", fs.get_select_npoints() * arr.dtype.itemsize))
            self._file._sync("write", self._name)
        n = fs.get_select_npoints()
        if n == 0:
            return
        v = arr.ravel()[:int(np.prod(ms.shape, dtype=int))].reshape(ms.shape)
        v = v[ms.sel] if isinstance(ms.sel, tuple) else v
        tgt = fs.sel if isinstance(fs.sel, tuple) else Ellipsis
        self._n.data[tgt] = v.reshape(self._n.data[tgt].shape)

    def read(self, mspace, fspace, arr, mtype=None, dxpl=None):
        ms, fs = self._spaces(mspace, fspace, arr)
        if dxpl is not None and dxpl.coll:
            TRANSFERS.append(("read", fs.get_select_npoints() * arr.dtype.itemsize))
            self._file._sync("read", self._name)
        n = fs.get_select_npoints()
        if n == 0:
            return
        v = self._n.data[fs.sel] if isinstance(fs.sel, tuple) else self._n.data
        out = arr._d.reshape(-1)[:int(np.prod(ms.shape, dtype=int))].reshape(ms.shape)
        out = SArr(_d=out, _dt=arr._dt)
        tgt = ms.sel if isinstance(ms.sel, tuple) else Ellipsis
        out[tgt] = v.reshape(out[tgt].shape)


class TypeID:
    __getattr__ = core.standin(h5py.h5t.TypeID)

    def __init__(self, dt):
        self.dtype = np.dtype(dt)


class PropList:
    __getattr__ = core.standin(h5py.h5p.PropDCID)

    def __init__(self, cls):
        self.cls = cls
        self.coll = False
        self.layout = "contiguous"
        self.o = {}

    def copy(self):
        p = PropList(self.cls)
        p.__dict__.update(self.__dict__)
        p.o = dict(self.o)
        return p

    def set_dxpl_mpio(self, m):
        if self.cls != "xfer":
            raise TypeError("not a transfer property list")
        self.coll = m == "collective"

    def get_dxpl_mpio(self):
        return "collective" if self.coll else "independent"

    def get_layout(self):
        return self.layout

    def set_layout(self, l):
        self.layout = l

    def set_chunk(self, c):
        self.layout = "chunked"
        self.o["chunks"] = tuple(int(x) for x in c)

    def get_chunk(self):
        return self.o["chunks"]

    def set_shuffle(self):
        self.o["shuffle"] = True

    def set_deflate(self, n):
        self.o["gzip"] = n

    def get_nfilters(self):
        return ("shuffle" in self.o) + ("gzip" in self.o)

    def set_fill_time(self, t):
        pass

    def set_fill_value(self, v):
        self.o["fill"] = v

    def set_alloc_time(self, t):
        pass


def _module_getattr(real, what):
    f = core.standin(real, what)
    return lambda name: f(None, name)


def make_module(fs, version=(1, 10, 10)):
    m = types.ModuleType("h5py")
    m.File = type("File", (File,), dict(_fs=fs))
    m.Group = Group
    m.Dataset = Dataset
    m.is_hdf5 = lambda name: getattr(fs.files.get(fs.norm(name)), "is_h5", False)
    m.version = types.SimpleNamespace(hdf5_version_tuple=version, hdf5_version=".".join(map(str, version)),
                                      version="3.10.0", version_tuple=(3, 10, 0, "", 0))
    m.h5s = types.SimpleNamespace(create_simple=lambda shape, mx=None: Space(shape), ALL=ALL, SpaceID=Space)
    m.h5t = types.SimpleNamespace(py_create=lambda dt, logical=False: TypeID(dt))

    def create(loc, name, tid, space, dcpl=None, dapl=None):
        g = loc.g
        name = text(name)
        o = dict(dcpl.o) if dcpl is not None else {}
        if o.get("shuffle") or o.get("gzip") is not None:
            if dcpl.layout != "chunked":
                raise ValueError("Unable to create dataset (filters can only be used with chunked layout)")
        if o.get("gzip") is not None:
            o["compression"], o["compression_opts"] = "gzip", o["gzip"]
        if dcpl is not None and dcpl.layout == "chunked":
            _check_chunks(space.shape, o)
        g._mk(name, lambda: DNode(space.shape, tid.dtype, opts=o), "dataset")
        n = g._find(name)
        return DID(g._file, n, g.name.rstrip("/") + "/" + name)

    def dopen(loc, name, dapl=None):
        d = loc.g[name]
        return d.id
    m.h5d = types.SimpleNamespace(CHUNKED="chunked", CONTIGUOUS="contiguous", COMPACT="compact", create=create,
                                  open=dopen, FILL_TIME_NEVER=1, FILL_TIME_ALLOC=0, ALLOC_TIME_EARLY=1)
    m.h5p = types.SimpleNamespace(DATASET_CREATE="dcpl", DATASET_XFER="xfer", FILE_ACCESS="fapl",
                                  create=lambda c: PropList(c), PropDCID=PropList)
    m.h5fd = types.SimpleNamespace(MPIO_COLLECTIVE="collective", MPIO_INDEPENDENT="independent")
    m.string_dtype = lambda *a, **k: np.dtype(object)
    m.get_config = lambda: types.SimpleNamespace(mpi=True)
    m.AttributeManager = Attrs
    m.HLObject = Obj
    m.__getattr__ = _module_getattr(h5py, "h5py")
    for sub in ("h5s", "h5t", "h5d", "h5p", "h5fd"):
        mm = types.ModuleType("h5py." + sub)
        mm.__dict__.update(getattr(m, sub).__dict__)
        mm.__getattr__ = _module_getattr(getattr(h5py, sub), "h5py." + sub)
        setattr(m, sub, mm)
    m.Empty = lambda dt: (_ for _ in ()).throw(core.Inconclusive("h5py.Empty"))
    return m
