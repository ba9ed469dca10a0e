"""Stand-in for the HDF5 library as the Fortran wrapper calls it.

Files live in memory.  A dataset is a base value (a function of the coordinates) and the list of the hyperslabs written
to it; positions may be symbolic, so reading an element is an expression over them.  Errors are reported like the
library does (a negative status).
"""
from . import core
from .core import Inconclusive
from .fortran import Ty, OutOfBounds, isarr, elems, concrete, fresh, unsupported, FArr, Cell
from .scalars import is_sym, sand, ite, SInt

UNLIM = -1

TYPES = {  # name -> (class, size, order)
    "h5t_std_i64le": ("int", 8, "<"), "h5t_std_i32le": ("int", 4, "<"),
    "h5t_ieee_f32le": ("float", 4, "<"), "h5t_ieee_f64le": ("float", 8, "<"),
    "h5t_std_i64be": ("int", 8, ">"), "h5t_std_i32be": ("int", 4, ">"),
    "h5t_ieee_f32be": ("float", 4, ">"), "h5t_ieee_f64be": ("float", 8, ">"),
    "h5t_native_character": ("str", 1, "|"), "h5t_native_integer": ("int", 4, "<"),
    "h5t_native_real": ("float", 4, "<"), "h5t_native_double": ("float", 8, "<"),
    "h5t_fortran_s1": ("str", 1, "|"),
}
CONST = {
    "hid_t": 8, "size_t": 8, "hsize_t": 8, "hssize_t": 8,
    "h5f_acc_rdonly_f": 0, "h5f_acc_rdwr_f": 1, "h5f_acc_trunc_f": 2, "h5f_acc_excl_f": 4,
    "h5p_default_f": 0, "h5p_dataset_create_f": 150994953, "h5s_scalar_f": 0, "h5s_simple_f": 1, "h5s_null_f": 2,
    "h5s_unlimited_f": UNLIM, "h5s_select_set_f": 0, "h5s_select_or_f": 1, "h5s_all_f": 0,
    "h5t_no_class_f": -1, "h5t_integer_f": 0, "h5t_float_f": 1, "h5t_time_f": 2, "h5t_string_f": 3,
    "h5t_compound_f": 6, "h5g_unknown_f": -1, "h5g_group_f": 0, "h5g_dataset_f": 1, "h5g_type_f": 2, "h5g_link_f": 3,
    "h5f_obj_file_f": 1, "h5f_obj_dataset_f": 2, "h5f_obj_group_f": 4, "h5f_obj_datatype_f": 8, "h5f_obj_attr_f": 16,
    "h5_index_name_f": 0, "h5_index_crt_order_f": 1, "h5_iter_inc_f": 0, "h5_iter_dec_f": 1, "h5_iter_native_f": 2,
    "h5f_obj_all_f": 31, "h5_szip_nn_om_f": 32, "h5_szip_ec_om_f": 4,
}
CLASS = {"int": 0, "float": 1, "str": 3, "compound": 6}


class Group:
    def __init__(self):
        self.m, self.attrs = {}, {}


class Dataset:
    def __init__(self, ty, dims, maxdims, chunk=None, base=None):
        self.ty, self.dims, self.maxdims, self.chunk = ty, list(dims), list(maxdims), chunk
        self.base = base
        self.slabs = []
        self.attrs = {}
        self.filters = ()

    def value(self, q):
        """Element at the (zero based) Fortran coordinates q."""
        v = self.base(q) if self.base is not None else 0
        for st, ct, vals in self.slabs:
            inside = sand(*[sand(q[d] >= st[d], q[d] < st[d] + ct[d]) for d in range(len(ct))]) if ct else True
            if inside is False:
                continue
            w, m, pos = None, 1, [(0, [])]
            for d in range(len(ct)):
                pos = [(o + i * m, c + [i]) for o, c in pos for i in range(ct[d])]
                m *= ct[d]
            for o, c in pos:
                here = sand(*[q[d] == st[d] + c[d] for d in range(len(ct))]) if ct else True
                w = vals[o] if w is None else _pick(here, vals[o], w)
            if w is not None:
                v = _pick(inside, w, v)
        return v


def _pick(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return ite(c, a, b)


class Attr:
    def __init__(self, ty, dims, data):
        self.ty, self.dims, self.data = ty, dims, data


class File:
    def __init__(self):
        self.root = Group()
        self.ids = set()         # open file and object identifiers
        self.rw = True


class Space:
    def __init__(self, dims, maxdims):
        self.dims, self.maxdims, self.sel = list(dims), list(maxdims), None


class Hdf:
    def __init__(self):
        self.files = {}
        self.ids = {}
        self.next = 1000
        self.types = {n: -5000 - i for i, n in enumerate(TYPES)}
        self.bytypes = {v: TYPES[n] for n, v in self.types.items()}
        self.trace = []
        self.auto = None

    def const(self, name):
        if name in self.types:
            return self.types[name]
        return CONST.get(name)

    def new(self, kind, obj, file=None):
        self.next += 1
        self.ids[self.next] = (kind, obj, file)
        if file is not None:
            file.ids.add(self.next)
        return self.next

    def get(self, i, *kinds):
        i = concrete(i)
        x = self.ids.get(i)
        return x if x is not None and x[0] in kinds else None

    def drop(self, i):
        i = concrete(i)
        k, o, f = self.ids.pop(i)
        if f is not None:
            f.ids.discard(i)

    def type(self, i):
        i = concrete(i)
        if i in self.bytypes:
            return self.bytypes[i]
        x = self.ids.get(i)
        return x[1] if x is not None and x[0] == "type" else None

    def call(self, name, vals, kws):
        f = getattr(self, name, None)
        if f is None:
            unsupported("library routine " + name)
        try:
            f(*vals, **kws)
        except TypeError as x:
            unsupported("call of %s (%s)" % (name, x))

    # ---------------------------------------------------------------- names
    @staticmethod
    def parts(name):
        n = name.rstrip(" ").split("\0")[0]
        if not n:
            return None
        return [p for p in n.split("/") if p not in ("", ".")], n.startswith("/")

    def loc(self, i):
        """(object, file) a location identifier stands for."""
        x = self.get(i, "file", "group", "dset")
        if x is None:
            return None, None
        return (x[1].root if x[0] == "file" else x[1]), x[2]

    def find(self, i, name, parent=False):
        o, f = self.loc(i)
        p = self.parts(name.get())
        if o is None or p is None:
            return None, f, None
        o = f.root if p[1] else o
        ps = p[0]
        last = None
        if parent:
            if not ps:
                return None, f, None
            ps, last = ps[:-1], ps[-1]
        for c in ps:
            if not isinstance(o, Group) or c not in o.m:
                return None, f, None
            o = o.m[c]
        if parent and not isinstance(o, Group):
            return None, f, None
        return o, f, last

    # -------------------------------------------------------------- library
    def h5open_f(self, err):
        err.set(0)

    def h5close_f(self, err):
        for i in list(self.ids):
            self.drop(i)
        err.set(0)

    def h5eset_auto_f(self, flag, err):
        self.auto = flag.get()
        err.set(0)

    # ---------------------------------------------------------------- files
    def h5fopen_f(self, name, access_flags, file_id, hdferr, access_prp=None):
        n = name.get().rstrip(" ")
        f = self.files.get(n)
        rw = truth(access_flags.get() == 1)
        if f is None or (f.ids and rw and not f.rw):
            file_id.set(-1)
            return hdferr.set(-1)
        if not f.ids:
            f.rw = rw
        file_id.set(self.new("file", f, f))
        hdferr.set(0)

    def h5fcreate_f(self, name, access_flags, file_id, hdferr, creation_prp=None, access_prp=None):
        n = name.get().rstrip(" ")
        f = self.files.get(n)
        fl = concrete(access_flags.get())
        if (f is not None and (f.ids or fl == 4)) or not n:
            file_id.set(-1)
            return hdferr.set(-1)
        f = self.files[n] = File()
        file_id.set(self.new("file", f, f))
        hdferr.set(0)

    def h5fclose_f(self, file_id, hdferr):
        self._close(file_id, hdferr, "file")

    def _close(self, i, err, *kinds):
        if self.get(i.get(), *kinds) is None:
            return err.set(-1)
        self.drop(i.get())
        err.set(0)

    def h5fget_obj_count_f(self, file_id, obj_type, obj_count, hdferr):
        obj_count.set(0)
        hdferr.set(0)

    # --------------------------------------------------------------- groups
    def h5gopen_f(self, loc_id, name, grp_id, hdferr, gapl_id=None):
        o, f, _ = self.find(loc_id.get(), name)
        if not isinstance(o, Group):
            grp_id.set(-1)
            return hdferr.set(-1)
        grp_id.set(self.new("group", o, f))
        hdferr.set(0)

    def h5gcreate_f(self, loc_id, name, grp_id, hdferr, size_hint=None, lcpl_id=None, gcpl_id=None, gapl_id=None):
        o, f, last = self.find(loc_id.get(), name, parent=True)
        if o is None or last in o.m or not f.rw:
            grp_id.set(-1)
            return hdferr.set(-1)
        g = o.m[last] = Group()
        grp_id.set(self.new("group", g, f))
        hdferr.set(0)

    def h5gclose_f(self, grp_id, hdferr):
        self._close(grp_id, hdferr, "group")

    def h5gunlink_f(self, loc_id, name, hdferr):
        o, f, last = self.find(loc_id.get(), name, parent=True)
        if o is None or last not in o.m or not f.rw:
            return hdferr.set(-1)
        del o.m[last]
        hdferr.set(0)

    def h5ldelete_f(self, loc_id, name, hdferr, lapl_id=None):
        self.h5gunlink_f(loc_id, name, hdferr)

    def h5gn_members_f(self, loc_id, name, nmembers, hdferr):
        o, f, _ = self.find(loc_id.get(), name)
        if not isinstance(o, Group):
            return hdferr.set(-1)
        nmembers.set(len(o.m))
        hdferr.set(0)

    def h5gget_obj_info_idx_f(self, loc_id, name, idx, obj_name, obj_type, hdferr):
        o, f, _ = self.find(loc_id.get(), name)
        i = concrete(idx.get())
        if not isinstance(o, Group) or not 0 <= i < len(o.m):
            return hdferr.set(-1)
        n = sorted(o.m)[i]
        obj_name.set(n)
        obj_type.set(0 if isinstance(o.m[n], Group) else 1)
        hdferr.set(0)

    # ----------------------------------------------------------- attributes
    def h5aopen_name_f(self, obj_id, name, attr_id, hdferr):
        o, f = self.loc(obj_id.get())
        a = o.attrs.get(name.get().rstrip(" ")) if o is not None else None
        if a is None:
            attr_id.set(-1)
            return hdferr.set(-1)
        attr_id.set(self.new("attr", (a, name.get().rstrip(" ")), f))
        hdferr.set(0)

    def h5aopen_f(self, obj_id, name, attr_id, hdferr, aapl_id=None):
        self.h5aopen_name_f(obj_id, name, attr_id, hdferr)

    def h5aopen_idx_f(self, obj_id, index, attr_id, hdferr):
        # (as in the installed HDF5 1.10.10, whose Fortran module passes the wrong thing to the C library)
        attr_id.set(-1)
        hdferr.set(-1)

    def h5aopen_by_idx_f(self, loc_id, obj_name, idx_type, order, n, attr_id, hdferr, aapl_id=None, lapl_id=None):
        o, f, _ = self.find(loc_id.get(), obj_name)
        i = concrete(n.get())
        if o is None or not 0 <= i < len(o.attrs):
            attr_id.set(-1)
            return hdferr.set(-1)
        names = list(o.attrs)
        if concrete(idx_type.get()) == 0:
            names = sorted(names)
        if concrete(order.get()) == 1:
            names.reverse()
        n = names[i]
        attr_id.set(self.new("attr", (o.attrs[n], n), f))
        hdferr.set(0)

    def h5aget_num_attrs_f(self, obj_id, attr_num, hdferr):
        o, f = self.loc(obj_id.get())
        if o is None:
            return hdferr.set(-1)
        attr_num.set(len(o.attrs))
        hdferr.set(0)

    def h5aget_name_f(self, attr_id, size, buf, hdferr):
        x = self.get(attr_id.get(), "attr")
        if x is None:
            return hdferr.set(-1)
        n = concrete(size.get())
        buf.set(x[1][1][:n])
        hdferr.set(len(x[1][1]))

    def h5aget_space_f(self, attr_id, space_id, hdferr):
        x = self.get(attr_id.get(), "attr")
        if x is None:
            space_id.set(-1)
            return hdferr.set(-1)
        space_id.set(self.new("space", Space(x[1][0].dims, x[1][0].dims)))
        hdferr.set(0)

    def h5aget_type_f(self, attr_id, type_id, hdferr):
        x = self.get(attr_id.get(), "attr")
        if x is None:
            type_id.set(-1)
            return hdferr.set(-1)
        type_id.set(self.new("type", x[1][0].ty))
        hdferr.set(0)

    def h5aclose_f(self, attr_id, hdferr):
        self._close(attr_id, hdferr, "attr")

    def h5adelete_f(self, obj_id, name, hdferr):
        o, f = self.loc(obj_id.get())
        n = name.get().rstrip(" ")
        if o is None or n not in o.attrs or not f.rw:
            return hdferr.set(-1)
        del o.attrs[n]
        hdferr.set(0)

    def h5acreate_f(self, obj_id, name, type_id, space_id, attr_id, hdferr, acpl_id=None, aapl_id=None):
        o, f = self.loc(obj_id.get())
        n = name.get().rstrip(" ")
        t = self.type(type_id.get())
        s = self.get(space_id.get(), "space")
        if o is None or t is None or s is None or n in o.attrs or not n or not f.rw:
            attr_id.set(-1)
            return hdferr.set(-1)
        dims = [concrete(d) for d in s[1].dims]
        tot = 1
        for d in dims:
            tot *= d
        a = o.attrs[n] = Attr(t, dims, [0] * tot)
        attr_id.set(self.new("attr", (a, n), f))
        hdferr.set(0)

    # ---------------------------------------------------------------- types
    def h5tcopy_f(self, type_id, new_type_id, hdferr):
        t = self.type(type_id.get())
        if t is None:
            new_type_id.set(-1)
            return hdferr.set(-1)
        new_type_id.set(self.new("type", t))
        hdferr.set(0)

    def h5tset_size_f(self, type_id, size, hdferr):
        x = self.get(type_id.get(), "type")
        n = concrete(size.get())
        if x is None or n < 1 or x[1][0] != "str":
            return hdferr.set(-1)
        self.ids[concrete(type_id.get())] = ("type", (x[1][0], n, x[1][2]), None)
        hdferr.set(0)

    def h5tget_size_f(self, type_id, size, hdferr):
        t = self.type(type_id.get())
        if t is None:
            return hdferr.set(-1)
        size.set(t[1])
        hdferr.set(0)

    def h5tget_class_f(self, type_id, cls, hdferr):
        t = self.type(type_id.get())
        if t is None:
            cls.set(-1)
            return hdferr.set(-1)
        cls.set(CLASS[t[0]])
        hdferr.set(0)

    def h5tclose_f(self, type_id, hdferr):
        self._close(type_id, hdferr, "type")

    # --------------------------------------------------------------- spaces
    def h5screate_f(self, classtype, space_id, hdferr):
        if concrete(classtype.get()) != 0:
            unsupported("dataspace class")
        space_id.set(self.new("space", Space([], [])))
        hdferr.set(0)

    @staticmethod
    def dims(a, n):
        v = elems(a) if isarr(a) else [a.get()]
        if len(v) < n:
            raise OutOfBounds("library reads %d elements of an array of %d" % (n, len(v)))
        return v[:n]

    def h5screate_simple_f(self, rank, dims, space_id, hdferr, maxdims=None):
        n = concrete(rank.get())
        if n < 0 or n > 32:
            space_id.set(-1)
            return hdferr.set(-1)
        d = self.dims(dims, n)
        m = self.dims(maxdims, n) if maxdims is not None else d
        for x, y in zip(d, m):
            if truth(x < 0) or (y is not x and truth(sand(y != UNLIM, y < x))):
                space_id.set(-1)
                return hdferr.set(-1)
        space_id.set(self.new("space", Space(d, m)))
        hdferr.set(0)

    def h5sclose_f(self, space_id, hdferr):
        self._close(space_id, hdferr, "space")

    def h5sget_simple_extent_ndims_f(self, space_id, rank, hdferr):
        s = self.get(space_id.get(), "space")
        if s is None:
            return hdferr.set(-1)
        rank.set(len(s[1].dims))
        hdferr.set(0)

    def h5sget_simple_extent_dims_f(self, space_id, dims, maxdims, hdferr):
        s = self.get(space_id.get(), "space")
        if s is None:
            return hdferr.set(-1)
        for a, v in ((dims, s[1].dims), (maxdims, s[1].maxdims)):
            if len(v) > len(a.data):
                raise OutOfBounds("library writes %d elements to an array of %d" % (len(v), len(a.data)))
            for k, y in enumerate(v):
                a.setf(k, y)
        hdferr.set(len(s[1].dims))

    def h5sselect_hyperslab_f(self, space_id, operator, start, count, hdferr, stride=None, block=None):
        s = self.get(space_id.get(), "space")
        if stride is not None or block is not None or concrete(operator.get()) != 0:
            unsupported("strided selections")
        if s is None or not s[1].dims:
            return hdferr.set(-1)
        n = len(s[1].dims)
        st, ct = self.dims(start, n), self.dims(count, n)
        for x, y in zip(st, ct):
            if truth(sand(x < 0, y > 0)) or truth(y < 0):       # (unsigned overflow)
                return hdferr.set(-1)
        s[1].sel = (list(st), list(ct))
        hdferr.set(0)

    # ----------------------------------------------------------- properties
    def h5pcreate_f(self, cls, prp_id, hdferr):
        prp_id.set(self.new("prop", {}))
        hdferr.set(0)

    def h5pclose_f(self, prp_id, hdferr):
        self._close(prp_id, hdferr, "prop")

    def h5pset_chunk_f(self, prp_id, ndims, dims, hdferr):
        p = self.get(prp_id.get(), "prop")
        n = concrete(ndims.get())
        if p is None or n < 1:
            return hdferr.set(-1)
        d = self.dims(dims, n)
        for x in d:
            if truth(x < 1):
                return hdferr.set(-1)
        p[1]["chunk"] = list(d)
        hdferr.set(0)

    def h5pset_shuffle_f(self, prp_id, hdferr):
        p = self.get(prp_id.get(), "prop")
        if p is None:
            return hdferr.set(-1)
        p[1]["shuffle"] = True
        hdferr.set(0)

    def h5pset_deflate_f(self, prp_id, level, hdferr):
        p = self.get(prp_id.get(), "prop")
        l = level.get()
        if p is None or truth(l < 0) or truth(l > 9):
            return hdferr.set(-1)
        p[1]["gzip"] = l
        hdferr.set(0)

    def h5pset_szip_f(self, prp_id, options_mask, pixels_per_block, hdferr):
        hdferr.set(0)

    # ------------------------------------------------------------- datasets
    def h5dopen_f(self, loc_id, name, dset_id, hdferr, dapl_id=None):
        o, f, _ = self.find(loc_id.get(), name)
        if not isinstance(o, Dataset):
            dset_id.set(-1)
            return hdferr.set(-1)
        dset_id.set(self.new("dset", o, f))
        hdferr.set(0)

    def h5dclose_f(self, dset_id, hdferr):
        self._close(dset_id, hdferr, "dset")

    def h5dcreate_f(self, loc_id, name, type_id, space_id, dset_id, hdferr, dcpl_id=None, lcpl_id=None, dapl_id=None):
        o, f, last = self.find(loc_id.get(), name, parent=True)
        t = self.type(type_id.get())
        s = self.get(space_id.get(), "space")
        p = {}
        if dcpl_id is not None and concrete(dcpl_id.get()) != 0:
            x = self.get(dcpl_id.get(), "prop")
            p = x[1] if x is not None else None
        bad = o is None or t is None or s is None or p is None or last in o.m or not f.rw
        if not bad:
            d, m = s[1].dims, s[1].maxdims
            c = p.get("chunk")
            if c is None:
                # (without chunks the size is fixed and filters are not possible)
                bad = "gzip" in p or "shuffle" in p or any(truth(y != x) for x, y in zip(d, m) if y is not x)
            else:
                bad = len(c) != len(d) or any(truth(sand(y != UNLIM, k > y)) for k, y in zip(c, m))
        if bad:
            dset_id.set(-1)
            return hdferr.set(-1)
        ds = o.m[last] = Dataset(t, s[1].dims, s[1].maxdims, p.get("chunk"))
        ds.filters = (p.get("shuffle", False), p.get("gzip"))
        dset_id.set(self.new("dset", ds, f))
        hdferr.set(0)

    def h5dget_type_f(self, dset_id, type_id, hdferr):
        x = self.get(dset_id.get(), "dset")
        if x is None:
            type_id.set(-1)
            return hdferr.set(-1)
        type_id.set(self.new("type", x[1].ty))
        hdferr.set(0)

    def h5dget_space_f(self, dset_id, space_id, hdferr):
        x = self.get(dset_id.get(), "dset")
        if x is None:
            space_id.set(-1)
            return hdferr.set(-1)
        space_id.set(self.new("space", Space(x[1].dims, x[1].maxdims)))
        hdferr.set(0)

    def h5dextend_f(self, dset_id, size, hdferr):
        x = self.get(dset_id.get(), "dset")
        if x is None or x[1].chunk is None or not x[2].rw:
            return hdferr.set(-1)
        d = self.dims(size, len(x[1].dims))
        for y, m in zip(d, x[1].maxdims):
            if truth(y < 0) or truth(sand(m != UNLIM, y > m)):
                return hdferr.set(-1)
        for y, o in zip(d, x[1].dims):
            if truth(y < o):
                unsupported("shrinking a dataset")
        ds = x[1]
        if ds.base is not None:
            old, base = list(ds.dims), ds.base
            ds.base = lambda q: _pick(sand(*[a < b for a, b in zip(q, old)]) if old else True, base(q), 0)
        ds.dims = list(d)
        hdferr.set(0)

    def h5dset_extent_f(self, dset_id, size, hdferr):
        self.h5dextend_f(dset_id, size, hdferr)

    # ----------------------------------------------------------- transfers
    def c_call(self, name, args):
        f = getattr(self, name, None)
        if f is None:
            unsupported("C library function " + name)
        return f(*args)

    def selection(self, s):
        """(start, counts as integers) of a dataspace, or None if it is outside the extent."""
        if s.sel is None:
            return [0] * len(s.dims), [concrete(d) for d in s.dims]
        st, ct = s.sel
        ct = [concrete(c) for c in ct]
        for a, c, d in zip(st, ct, s.dims):
            if c > 0 and all(ct) and truth(a + c > d):
                return None
        return st, ct

    def positions(self, s, n):
        """Flat positions in memory of the selected elements, in order."""
        sel = self.selection(s)
        if sel is None:
            return None
        st, ct = [concrete(x) for x in sel[0]], sel[1]
        pos, m = [0], 1
        for a, c, d in zip(st, ct, s.dims):
            pos = [p + m * (a + i) for i in range(c) for p in pos]
            m *= concrete(d)
        if pos and max(pos) >= n:
            raise OutOfBounds("library accesses element %d of an array of %d" % (max(pos), n))
        return pos

    def convert(self, v, a, b, mem):
        """Value of type a as type b (mem: the one in memory)."""
        if mem[0] != "str" and mem[2] == ">" and mem[1] > 1:
            return fresh(Ty("i", 8))        # the program's own numbers are little endian
        if a == b:
            return v
        if a[0] == "str":
            if b[1] >= a[1]:
                return v
        else:
            if b[0] == "int" and a[0] == "int" and b[1] < a[1]:
                m = 1 << (8 * b[1] - 1)
                return _pick(v >= m, m - 1, _pick(v < -m, -m, v))
            if a[1] <= b[1]:
                return v
        return fresh(Ty("i", 8))

    def _spaces(self, dset, mt, ms, fs):
        x = self.get(dset, "dset")
        t = self.type(mt)
        a = Space(x[1].dims, x[1].maxdims) if x is not None else None
        if not (isinstance(fs, str) or concrete(fs) == 0):
            y = self.get(fs, "space")
            a = y[1] if y is not None else None
        if isinstance(ms, str) or concrete(ms) == 0:
            m = a
        else:
            y = self.get(ms, "space")
            m = y[1] if y is not None else None
        if x is None or t is None or a is None or m is None or (t[0] == "str") != (x[1].ty[0] == "str"):
            return None
        # (the extent given must be the dataset's own)
        if len(a.dims) != len(x[1].dims):
            return None
        return x, t, m, a

    def H5Dread(self, dset, mt, ms, fs, plist, buf):
        r = self._spaces(dset, mt, ms, fs)
        if r is None:
            return -1
        x, t, m, a = r
        fsel = self.selection(a)
        n = len(buf.data) if isarr(buf) else 1
        pos = self.positions(m, n)
        if fsel is None or pos is None:
            return -1
        st, ct = fsel
        tot = 1
        for c in ct:
            tot *= c
        if tot != len(pos):
            return -1
        co = [[]]
        for a0, c in zip(reversed(st), reversed(ct)):
            co = [[a0 + i] + y for y in co for i in range(c)]
        for p, q in zip(pos, co):
            v = self.convert(x[1].value(q), x[1].ty, t, t)
            self.put(buf, p, v)
        return 0

    @staticmethod
    def put(buf, p, v):
        if isarr(buf):
            buf.data[p] = v
        else:
            buf.v = v

    @staticmethod
    def take(buf, p):
        if isarr(buf):
            return buf.getf(p)
        return buf.get()

    def H5Dwrite(self, dset, mt, ms, fs, plist, buf):
        r = self._spaces(dset, mt, ms, fs)
        if r is None or not r[0][2].rw:
            return -1
        x, t, m, a = r
        fsel = self.selection(a)
        n = len(buf.data) if isarr(buf) else 1
        pos = self.positions(m, n)
        if fsel is None or pos is None:
            return -1
        st, ct = fsel
        tot = 1
        for c in ct:
            tot *= c
        if tot != len(pos):
            return -1
        vals = [self.convert(self.take(buf, p), t, x[1].ty, t) for p in pos]
        x[1].slabs.append((list(st), list(ct), vals))
        return 0

    def H5Aread(self, attr, mt, buf):
        x = self.get(attr, "attr")
        t = self.type(mt)
        if x is None or t is None:
            return -1
        a = x[1][0]
        if (t[0] == "str") != (a.ty[0] == "str"):
            return -1
        n = len(buf.data) if isarr(buf) else 1
        if len(a.data) > n:
            raise OutOfBounds("library writes %d elements to an array of %d" % (len(a.data), n))
        for p, v in enumerate(a.data):
            self.put(buf, p, self.convert(v, a.ty, t, t))
        return 0

    def H5Awrite(self, attr, mt, buf):
        x = self.get(attr, "attr")
        t = self.type(mt)
        if x is None or t is None or not x[2].rw:
            return -1
        a = x[1][0]
        if (t[0] == "str") != (a.ty[0] == "str"):
            return -1
        n = len(buf.data) if isarr(buf) else 1
        if len(a.data) > n:
            raise OutOfBounds("library reads %d elements of an array of %d" % (len(a.data), n))
        a.data = [self.convert(self.take(buf, p), t, a.ty, t) for p in range(len(a.data))]
        return 0


def truth(x):
    return bool(x)
