"""Fortran HDF5 wrapper: attributes, groups, queries and listings."""
from .common import *
from .. import fwrap
from .C31 import W, TYPES, RANKS, total, flatpos

BOUNDS = ("attributes of every type (real, double, integer*4, integer*8, character) and rank 0-7 (up to eight elements), "
          "on groups one to three levels deep and on datasets, new or replacing one of another type and shape; datasets "
          "of every type and rank 0-7, each extent 1-5 (1-2 from rank 5), and of rank 1-3 which grow; groups up to 14 levels deep with any prefix of the path "
          "existing; listings of any subset of eight objects and attributes; values, extents and presence of objects "
          "symbolic")
ASSUMPTIONS = ["the HDF5 library does what its documentation says (vsym/fakehdf.py stands in for it; sampled paths are "
               "run against the real library)",
               "arrays passed to hdf5_read_attribute have the attribute's rank and, beyond one dimension, its shape",
               "names of up to 200 characters"]
VM = {"i4": 2 ** 31 - 1, "i8": 2 ** 63 - 1, "r4": 2 ** 23, "r8": 2 ** 50}
CLS = {"int": ("INTEGER",), "float": ("REAL",), "str": ("CHARACTER", "STRING"), "compound": ("OTHER",)}


class Attr(W):
    """Write an attribute, query and read it."""
    shape = (2,)
    path = "g"          # of the parent
    old = None          # (type, shape) of an existing attribute
    over = False        # overwrite argument?
    larger = 0          # additional elements in the array read into
    lead = ""

    def inputs(self, v):
        lo = 1 if self.t[0] == "c" else -VM[self.t]
        i = {"vals": [v.int("v[%d]" % k, lo, 9999 if self.t[0] == "c" else VM[self.t]) for k in range(total(self.shape))]}
        if self.old:
            i["present"] = v.bool("present")
            i["old"] = [v.int("o[%d]" % k, 1, 9999) for k in range(total(self.old[1]))]
        if self.over:
            i["over"] = v.bool("overwrite")
        return i

    def pre(self, inp):
        o = [("group", "g/h/i"), ("dset", "g/x", "i4", [2]), ("dset", "y", "r8", [])]
        if self.old and bool(inp["present"]):
            o.append(("attr", self.path + "/a", self.old[0], self.old[1], inp["old"]))
        o.append(("attr", "g/b", "i4", None, [17]))
        return [("out.hdf5", o)]

    def program(self, inp):
        n = self.lead + self.path + "/a"
        rs = self.shape if not self.larger else (self.shape[0] + self.larger,)
        return [("open", "h", "out.hdf5", None),
                ("wattr", "h", n, self.t, self.shape, inp["vals"], {"overwrite": inp["over"]} if self.over else {}),
                ("rattr", "h", n, self.t, rs), ("dims", "h", n), ("type", "h", n), ("close", "h")]

    def judge(self, chk, inp, st, res, con):
        c = con["out.hdf5"]
        had = bool(self.old and bool(inp["present"]))
        over = bool(self.over and bool(inp["over"]))
        want = {"/g@b": (("int", 4), [], [17])}
        key = "/" + self.path + "@a"
        ok = not had or over
        if ok:
            want[key] = (fwrap.tinfo(self.t), list(self.shape or []), inp["vals"])
        else:
            want[key] = (fwrap.tinfo(self.old[0]), list(self.old[1] or []), inp["old"])
        if not ok and st != "abort":
            chk.fail("an attribute was replaced without overwrite (%s)" % st)
        if ok and st != "done":
            chk.fail("writing and reading an attribute ended with %s" % st)
        chk.eq(sorted(k for k in c if k), sorted(["/g", "/g/h", "/g/h/i", "/g/x", "/y"] + list(want)), "objects in the file")
        for k, (t, d, x) in want.items():
            chk.eq(tuple(c[k].type), tuple(t), "type of " + k)
            chk.eqlist(c[k].dims, d, "shape of " + k)
            chk.eqlist(c[k].vals, x, "value of " + k)
        if ok:
            chk.eqlist(res[2], list(inp["vals"]) + [fwrap.SENT] * self.larger, "attribute read back")
            chk.eq(res[3][0], len(self.shape or []), "rank")
            chk.eqlist(res[3][1], list(self.shape or []), "dimensions")
            chk.that(res[4][0] in CLS[fwrap.tinfo(self.t)[0]], "type name %s" % res[4][0])
            chk.eq(res[4][1], fwrap.tinfo(self.t)[1], "size")


class Refuse(W):
    """Calls which cannot be carried out stop the program and change nothing."""
    op = None
    ro = None
    verbosity = 0

    def inputs(self, v):
        return {"v": v.int("v", 1, 9999)}

    def pre(self, inp):
        return [("out.hdf5", [("group", "g/h"), ("dset", "g/x", "i4", [2]), ("attr", "g/b", "i4", (2,), [3, 4]),
                              ("attr", "g/s", "c5", None, [5])])]

    def program(self, inp):
        op = tuple([inp["v"]] * x.count("V") if isinstance(x, str) and x and not x.strip("V") else x for x in self.op)
        return [("open", "h", "out.hdf5", self.ro), op, ("group", "h", "more")]

    def judge(self, chk, inp, st, res, con):
        if st != "abort" or len(res) != 1:
            chk.fail("the program went on after %r (%s)" % (self.op, st))
        chk.eq(sorted(k for k in con["out.hdf5"] if k), ["/g", "/g/h", "/g/x", "/g@b", "/g@s"], "objects in the file")
        chk.eqlist(con["out.hdf5"]["/g@b"].vals, [3, 4], "attribute")


class Query(W):
    """Dimensions, type and attributes of objects present beforehand."""
    frank = 1
    dmax = 5
    path = "g/x"

    def inputs(self, v):
        return {"dims": [v.int("dims[%d]" % d, 1, self.dmax) for d in range(self.frank)]}

    def pre(self, inp):
        return [("in.hdf5", [("dset", self.path, self.t, inp["dims"]),
                             ("attr", self.path + "/u", "r8", (2, 3), [1, 2, 3, 4, 5, 6])])]

    def program(self, inp):
        return [("open", "h", "in.hdf5", True), ("dims", "h", self.path), ("type", "h", self.path),
                ("rattr", "h", self.path + "/u", "r8", (2, 3)), ("dims", "h", self.path + "/u"),
                ("list", "attributes", "h", self.path), ("close", "h")]

    dump = ()

    def judge(self, chk, inp, st, res, con):
        if st != "done":
            chk.fail("ended with " + st)
        chk.eq(res[1][0], self.frank, "rank")
        chk.eqlist(res[1][1], inp["dims"], "dimensions")
        c, n = fwrap.tinfo(self.t)
        chk.that(res[2][0] in CLS[c], "type name %s of %s" % (res[2][0], c))
        chk.eq(res[2][1], n, "size")
        chk.eqlist(res[3], [1, 2, 3, 4, 5, 6], "attribute")
        chk.eq(res[4][0], 2, "rank of the attribute")
        chk.eqlist(res[4][1], [2, 3], "dimensions of the attribute")
        chk.eq(res[5], (1, ["u"]), "attributes of the dataset")


class Grow(W):
    """Dimensions of a dataset which can grow, before and after it does."""
    frank = 1
    state = "unlimited"     # or "new": made by the program
    dump = ()

    def inputs(self, v):
        return {"dims": [v.int("dims[%d]" % d, 1, 3) for d in range(self.frank)],
                "start": [v.int("start[%d]" % d, 1, 4) for d in range(self.frank)],
                "v": v.int("v", 1, 9999)}

    def pre(self, inp):
        if self.state == "new":
            return [("in.hdf5", [("group", "g")])]
        return [("in.hdf5", [("dset", "g/x", "r8", inp["dims"], dict(unlimited=True))])]

    def program(self, inp):
        o = [("open", "h", "in.hdf5", False)]
        one = (1,) * self.frank
        if self.state == "new":
            o.append(("write", "h", "g/x", "r8", one, [1], {"extensible": True, "start": inp["dims"], "count": one}))
        else:
            o.append(("read", "h", "g/x", "r8", one, {"start": one, "count": one}))
        return o + [("dims", "h", "g/x"), ("write", "h", "g/x", "r8", one, [inp["v"]], {"start": inp["start"], "count": one}),
                    ("dims", "h", "g/x"), ("type", "h", "g/x"), ("close", "h"),
                    ("open", "k", "in.hdf5", True), ("dims", "k", "g/x"), ("close", "k")]

    def judge(self, chk, inp, st, res, con):
        if st != "done":
            chk.fail("ended with " + st)
        after = [ite(s > d, s, d) for s, d in zip(inp["start"], inp["dims"])]
        for i, w, n in ((2, inp["dims"], "at first"), (4, after, "after it grew"), (8, after, "when reopened")):
            chk.eq(res[i][0], self.frank, "rank " + n)
            chk.eqlist(res[i][1], w, "dimensions " + n)
        chk.that(res[5][0] in CLS["float"], "type name %s" % res[5][0])
        chk.eq(res[5][1], 8, "size")


NAMES = ["aa", "a", "b", "group_with_a_long_name", "Z", "x1", "c", "d"]


class Listing(W):
    """Lists of the members of a group."""
    loc = "g"

    def inputs(self, v):
        return {"kind": [v.choice("member %d" % i, 3 if i < 5 else 2) for i in range(self.n)],
                "attrs": [v.bool("attribute %d" % i) for i in range(self.na)]}
    n = 6
    na = 3

    def pre(self, inp):
        p = self.loc.strip("/")
        p = p + "/" if p else ""
        o = [("group", p or "g")]
        for k, n in zip(inp["kind"], NAMES):
            if k == 1:
                o.append(("dset", p + n, "i4", [2]))
            elif k == 2:
                o.append(("group", p + n + "/inner"))
        for k, n in zip(inp["attrs"], NAMES):
            if bool(k):
                o.append(("attr", p + n, "i4", None, [3]))
        return [("in.hdf5", o)]

    def program(self, inp):
        out = [("open", "h", "in.hdf5", True)]
        for k in ("datasets", "groups", "attributes"):
            out += [("list", k, "h", self.loc, True), ("list", k, "h", self.loc, False)]
        return out + [("close", "h")]

    dump = ()

    def judge(self, chk, inp, st, res, con):
        if st != "done":
            chk.fail("ended with " + st)
        extra = [] if self.loc.strip("/") else ["g"]
        w = [[n for k, n in zip(inp["kind"], NAMES) if k == 1], extra + [n for k, n in zip(inp["kind"], NAMES) if k == 2],
             [n for k, n in zip(inp["attrs"], NAMES) if bool(k)]]
        for i, (k, x) in enumerate(zip(("datasets", "groups", "attributes"), w)):
            chk.eq(res[1 + 2 * i][0], len(x), "number of " + k)
            chk.eq(sorted(res[1 + 2 * i][1]), sorted(x), "names of " + k)
            chk.eq(res[2 + 2 * i][0], len(x), "number of %s without names" % k)


class Groups(W):
    """Creation of nested groups."""
    depth = 3
    lead = ""
    trail = ""
    via = "group"

    def inputs(self, v):
        return {"have": v.choice("existing levels", self.depth + 1), "dset": v.bool("dataset in the way"),
                "val": v.int("v", -5, 5)}

    def names(self):
        return ["abcdefghijklmn"[i] * (1 + i % 3) for i in range(self.depth)]

    def pre(self, inp):
        n = self.names()
        o = [("group", "other")]
        h = inp["have"]
        if h:
            o.append(("group", "/".join(n[:h])))
        if bool(inp["dset"]) and h < self.depth:
            o.append(("dset", "/".join(n[:h + 1]), "i4", [2]))
        return [("out.hdf5", o)]

    def program(self, inp):
        p = self.lead + "/".join(self.names())
        if self.via == "group":
            op = ("group", "h", p + self.trail)
        else:
            op = ("write", "h", p + "/x", "i4", None, [inp["val"]], {})
        return [("open", "h", "out.hdf5", None), op, ("wattr", "h", p + "/u", "i4", None, [inp["val"]], {}), ("close", "h")]

    def judge(self, chk, inp, st, res, con):
        n = self.names()
        paths = ["/" + "/".join(n[:i + 1]) for i in range(self.depth)]
        c = con["out.hdf5"]
        h = inp["have"]
        if bool(inp["dset"]) and h < self.depth:
            if st != "abort" or len(res) != 1:
                chk.fail("a group was created through a dataset (%s)" % st)
            chk.eqlist(c[paths[h]].dims, [2], "dataset in the way")
            return
        if st != "done":
            chk.fail("creation of a group ended with " + st)
        want = ["/other"] + paths + [paths[-1] + "@u"] + ([paths[-1] + "/x"] if self.via != "group" else [])
        chk.eq(sorted(k for k in c if k), sorted(want), "objects in the file")
        for p in paths:
            chk.eq(c[p], "group", "kind of object")
        chk.eqlist(c[paths[-1] + "@u"].vals, [inp["val"]], "attribute of the group")


BUDGET = {"quick": 300, "thorough": 600}


def cases(tier):
    out = []
    for i, t in enumerate(TYPES):
        for j, s in enumerate(RANKS):
            k = i + j
            p = ["g", "g/x", "g/h", "y", "g/h/i"][k % 5]
            out.append(("Attr", dict(name="attribute %s rank %d of %s" % (t, len(s or []), p), t=t, shape=s, path=p,
                                     lead=["", "/"][k % 2], verbosity=k % 2)))
            o = [("r4", (3,)), ("i8", None), ("c9", (2,)), ("i4", (2, 2)), ("r8", None)][(i + 2 * j) % 5]
            out.append(("Attr", dict(name="attribute %s rank %d of %s again" % (t, len(s or []), p), t=t, shape=s, path=p,
                                     old=o, over=j % 3 != 2)))
        out.append(("Attr", dict(name="attribute %s read into a longer array" % t, t=t, shape=(3,), larger=2)))
    for t in TYPES + ["x4", "c1", "i1", "i2"]:
        for r in range(8):
            if r not in (0, 1, 3) and t in ("x4", "c1", "i1", "i2"):
                continue
            out.append(("Query", dict(name="query %s rank %d" % (t, r), t=t, frank=r, dmax=5 if r < 5 else 2,
                                      path=["x", "g/x", "/g/h/x"][(r + len(t)) % 3] if r else "g/x")))
    for r in (1, 2, 3):
        for st in ("unlimited", "new"):
            out.append(("Grow", dict(name="dimensions of a growing dataset of rank %d, %s" % (r, st), frank=r, state=st, verbosity=r % 2, w=20)))
    R = [("parent absent", ("wattr", "h", "no/a", "i4", None, "V", {})), ("parent absent, nested", ("wattr", "h", "g/no/a", "i4", None, "V", {})),
         ("no parent", ("wattr", "h", "a", "i4", None, "V", {})), ("present", ("wattr", "h", "g/b", "i4", (2,), "VV", {})),
         ("present, overwrite false", ("wattr", "h", "g/b", "i4", (2,), "VV", {"overwrite": False})),
         ("read absent", ("rattr", "h", "g/a", "i4", None)), ("read absent parent", ("rattr", "h", "no/a", "i4", None)),
         ("read no parent", ("rattr", "h", "b", "i4", (2,))), ("read attribute as dataset", ("read", "h", "g/b", "i4", (2,), {})),
         ("read dataset as attribute", ("rattr", "h", "g/x", "i4", (2,))), ("read absent dataset", ("read", "h", "g/y", "i4", (2,), {})),
         ("read group", ("read", "h", "g", "i4", (2,), {})), ("read text as number", ("rattr", "h", "g/s", "i4", (5,))),
         ("dims absent", ("dims", "h", "g/no")), ("dims no parent", ("dims", "h", "no")), ("type absent", ("type", "h", "g/no")),
         ("type absent parent", ("type", "h", "no/a")), ("dims absent parent", ("dims", "h", "no/a")),
         ("list absent", ("list", "groups", "h", "no")), ("list datasets of a dataset", ("list", "datasets", "h", "g/x")),
         ("list attributes of nothing", ("list", "attributes", "h", "g/no")), ("group below a dataset", ("group", "h", "g/x/z")),
         ("dataset below a dataset", ("write", "h", "g/x/z", "i4", None, "V", {})),
         ("attribute of a dataset, present", ("wattr", "h", "g/x/b/c", "i4", None, "V", {}))]
    for i, (n, op) in enumerate(R):
        ops = [op]
        for h, hn in ((0, "0"), (1001, "1001"), (-1, "-1"), (2, "2")) if i % 3 == 0 or op[0] in ("type", "list", "group") else ():
            k = op.index("h")
            out.append(("Refuse", dict(name="%s (%s), handle %s" % (op[0], n, hn), op=op[:k] + (h,) + op[k + 1:])))
        out.append(("Refuse", dict(name="refuse: " + n, op=op, verbosity=i % 2)))
    for n, op in (("attribute", ("wattr", "h", "g/a", "i4", None, "V", {})), ("overwritten attribute", ("wattr", "h", "g/b", "i4", (2,), "VV", {"overwrite": True})),
                  ("dataset", ("write", "h", "g/z", "i4", (2,), "VV", {})), ("part of a dataset", ("write", "h", "g/x", "i4", (2,), "VV", {"start": [1], "count": [2]})),
                  ("overwritten dataset", ("write", "h", "g/x", "i4", (2,), "VV", {"overwrite": True})), ("group", ("group", "h", "g/z"))):
        out.append(("Refuse", dict(name="read-only: " + n, op=op, ro=True)))
    for loc in ("g", "/g", "/", "g/h/i"):
        out.append(("Listing", dict(name="members of " + loc, loc=loc, n=6 if tier == "quick" else 8, w=20)))
    for d in (1, 2, 3, 5, 9, 10, 11, 14):
        for via in ("group", "write"):
            for lead, trail in (("", ""), ("/", ""), ("", "/"), ("/", "/")):
                if trail and via == "write" or d > 5 and (lead or trail) and d != 10:
                    continue
                out.append(("Groups", dict(name="%s %s%d levels%s" % (via, lead, d, trail), depth=d, lead=lead, trail=trail,
                                           via=via, verbosity=d % 2)))
    return out
