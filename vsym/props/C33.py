"""Fortran HDF5 wrapper: sessions with several files, and histories of reads and writes."""
from .common import *
from .. import fwrap
from .C31 import W

BOUNDS = ("up to four (thorough: five) operations after each of a list of beginnings, each any of the operations possible "
          "at that point: open (read-only, writable), create, close, read whole or part, write part (extending), overwrite with another shape, "
          "write and overwrite attributes, create groups, use of closed handles; two files with datasets of the same "
          "names; values symbolic")
ASSUMPTIONS = ["the HDF5 library does what its documentation says (vsym/fakehdf.py stands in for it; sampled paths are "
               "run against the real library)",
               "a file is open through one handle at a time"]
N = 1000


class Model:
    """What a user of the wrapper expects."""

    def __init__(self):
        self.files = {"a.hdf5": {"x": (True, [1 + 1, 2 + 1, 3 + 1, 4 + 1][:4], "i4"), "g/y": (False, [2, 3], "i4")},
                      "b.hdf5": {"x": (False, [2, 3, 4], "i4")}}
        for f in self.files.values():
            for k, (u, v, t) in list(f.items()):
                f[k] = (u, [fwrap.injective([i]) for i in range(len(v))], t)
        self.attrs = {}
        self.groups = {"a.hdf5": {"g"}, "b.hdf5": set()}
        self.open = {}      # file -> read-only?
        self.aborted = False

    def enabled(self):
        o = []
        for f in ("a.hdf5", "b.hdf5"):
            if f not in self.open:
                o += [("open", f, None)] + ([("open", f, True), ("open", f, False)] if f == "a.hdf5" else [])
                o += [("create", f)] if f == "a.hdf5" else []
                o += [("read", f, "x", None)] if f == "a.hdf5" else []           # closed handle
            else:
                o.append(("close", f))
                for k in ("x", "g/y"):
                    if f == "b.hdf5" and k != "x":
                        continue
                    o += [("read", f, k, None)] + ([("read", f, k, (2, 1))] if k == "x" and f == "a.hdf5" else [])
                    if k == "x":
                        o += [("write", f, k, 2, 2, {})]
                        if f == "a.hdf5":
                            o += [("write", f, k, 4, 2, {}), ("over", f, k, 3)]
                    else:
                        o += [("over", f, k, 1)]
                if f == "a.hdf5":
                    o += [("attr", f, "g/u")]
        return o


class Session(W):
    begin = ()
    steps = 3
    dump = ("a.hdf5", "b.hdf5")

    def inputs(self, v):
        m = Model()
        ops, vals = [], []
        for i in range(len(self.begin) + self.steps):
            if i < len(self.begin):
                op = self.begin[i]
            else:
                e = m.enabled()
                if self.only:
                    e = [x for x in e if x[0] in self.only]
                    if not e:
                        break
                op = e[v.choice("op %d" % i, len(e))]
            ops.append(op)
            n = {"write": 4, "over": 3, "attr": 1}.get(op[0])
            n = op[n] if n and op[0] != "attr" else n or 0
            vs = [v.int("v%d[%d]" % (i, j), -N, N) for j in range(n)]
            vals.append(vs)
            self.apply(m, op, vs)
            if m.aborted:
                break
        return {"ops": ops, "vals": vals}
    only = None

    def apply(self, m, op, vs):
        """Result of the operation (None: nothing is returned)."""
        k, f = op[0], op[1]
        if k in ("open", "create"):
            m.open[f] = bool(k == "open" and op[2])
            if k == "create":
                m.files[f], m.groups[f] = {}, set()
                m.attrs = {a: b for a, b in m.attrs.items() if a[0] != f}
            return None
        if f not in m.open:
            m.aborted = True
            return None
        if k == "close":
            del m.open[f]
            return None
        if k == "read":
            d = m.files[f].get(op[2])
            if d is None:
                m.aborted = True
                return None
            st, c = op[3] or (1, len(d[1]))
            if st + c - 1 > len(d[1]) or c > 8:
                m.aborted = True
                return None
            return d[1][st - 1:st - 1 + c] + [fwrap.SENT] * (8 - c)
        if m.open[f]:
            m.aborted = True
            return None
        p, _, n = op[2].rpartition("/")
        if k == "attr":
            if p not in m.groups[f]:
                m.aborted = True
            else:
                m.attrs[(f, op[2])] = vs
            return None
        d = m.files[f].get(op[2])
        if k == "over":
            d = None
        if p:
            m.groups[f].add(p)
        if d is None:
            if k == "over":
                m.files[f][op[2]] = (False, list(vs), "i4")
            else:
                m.files[f][op[2]] = (False, [0] * (op[3] - 1) + list(vs), "i4")
            return None
        u, x, t = d
        end = op[3] + op[4] - 1
        if end > len(x) and not u:
            m.aborted = True
            return None
        x = x + [0] * (end - len(x))
        for i, w in enumerate(vs):
            x[op[3] - 1 + i] = w
        m.files[f][op[2]] = (u, x, t)
        return None

    def pre(self, inp):
        m = Model()
        return [(f, [("dset", k, t, [len(x)], dict(unlimited=u)) for k, (u, x, t) in d.items()])
                for f, d in sorted(m.files.items())]

    def program(self, inp):
        out = []
        opened, now = set(), set()
        for op, vs in zip(inp["ops"], inp["vals"]):
            k, f = op[0], op[1]
            h = f[0] + "h"
            if k == "open":
                out.append(("open", h, f, op[2]))
            elif k == "create":
                out.append(("create", h, f))
            elif k == "close":
                out.append(("close", h))
            elif k == "read":
                hh = h if f in opened else 7      # (a handle of the closed file, or one never returned)
                o = dict(start=[op[3][0]], count=[op[3][1]]) if op[3] else {}
                out.append(("read", hh, op[2], "i4", (8,), o))
            elif k == "attr":
                out.append(("wattr", h, op[2], "i4", None, vs, {"overwrite": True}))
            elif k == "over":
                out.append(("write", h, op[2], "i4", (len(vs),), vs, {"overwrite": True}))
            else:
                out.append(("write", h, op[2], "i4", (len(vs),), vs, dict(start=[op[3]], count=[op[4]])))
            if k in ("open", "create"):
                opened = (opened & now) | {f}     # (handles of closed files may be given out again)
                now.add(f)
            elif k == "close":
                now.discard(f)
        return out

    def judge(self, chk, inp, st, res, con):
        m = Model()
        for i, (op, vs) in enumerate(zip(inp["ops"], inp["vals"])):
            w = self.apply(m, op, vs)
            if m.aborted:
                if st != "abort" or len(res) != i:
                    chk.fail("the program went on after %r, which is not possible (%s)" % (op, st))
                break
            if len(res) <= i:
                chk.fail("%r stopped the program" % (op,))
            if w is not None:
                chk.eqlist(res[i], w, "result of %r" % (op,))
        else:
            if st != "done":
                chk.fail("the program ended with %s" % st)
        for f in self.dump:
            c = con[f]
            want = ["/" + k for k in m.files[f]] + ["/" + g for g in m.groups[f]] + \
                ["/%s@%s" % a[1].rpartition("/")[::2] for a in m.attrs if a[0] == f]
            chk.eq(sorted(k for k in c if k), sorted(want), "objects in " + f)
            for k, (u, x, t) in m.files[f].items():
                d = c["/" + k]
                chk.eqlist(d.dims, [len(x)], "extent of %s in %s" % (k, f))
                chk.eqlist([d.value([i]) for i in range(len(x))], x, "elements of %s in %s" % (k, f))
            for (g, a), x in m.attrs.items():
                if g == f:
                    chk.eqlist(c["/%s@%s" % a.rpartition("/")[::2]].vals, x, "attribute " + a)


BUDGET = {"quick": 400, "thorough": 800}
A, B = "a.hdf5", "b.hdf5"
OA, OB, RA, RB = ("open", A, None), ("open", B, None), ("read", A, "x", None), ("read", B, "x", None)


def cases(tier):
    out = []
    n = 1 if tier == "thorough" else 0
    for name, b, k in (("nothing", (), 3), ("one file", (OA,), 3), ("one file read", (OA, RA), 3), ("two files", (OA, OB), 3),
                       ("read-only", (("open", A, True), RA), 3),
                       ("two files read", (OB, OA, RB, RA), 3), ("file read and closed", (OA, RA, ("close", A)), 3),
                       ("read, other closed", (OA, OB, RA, ("close", B)), 3), ("overwritten", (OA, RA, ("over", A, "x", 3)), 3),
                       ("extended", (OA, RA, ("write", A, "x", 4, 2, {})), 3), ("created", (("create", A),), 3),
                       ("created anew", (OA, RA, ("close", A), ("create", A), ("write", A, "x", 2, 2, {}), RA), 3),
                       ("reopened", (OA, OB, RA, ("close", A), ("open", A, True), RB), 3)):
        out.append(("Session", dict(name="after " + name, begin=b, steps=k + n, w=20 * (8 if n else 1))))
    for name, b in (("two files", (OA, OB)), ("two files the other way round", (OB, OA))):
        out.append(("Session", dict(name="reads, opens and closes after " + name, begin=b, steps=4 + n, only=("read", "open", "close"), w=40)))
    return out
