"""Merger tree indexing (virgo.database): depth first order, branch masses."""
from .common import *

BOUNDS = ("every forest of up to 3 nodes with unrestricted distinct node ids and branch masses in any order (ties "
          "included), of 4 nodes with fixed ids, and of 5 nodes (thorough 6) in a fixed topological order with a 2 value mass "
          "alphabet; int32 and int64 ids; descendants which are not in the catalogue")
ASSUMPTIONS = ["node ids are unique and descendants belong to later snapshots (no cycles)", "masses are positive and "
               "their sums are exact"]

IT = "virgo.database.index_trees"


class Trees(H):
    mpi = False
    n = 3
    dt = "i8"
    ids = None           # fixed node ids (else symbolic)
    topo = None          # fixed order: desc[i] among later nodes in this order
    alphabet = None
    mdt = "f8"
    skip = False         # descendants may be missing from the catalogue

    def inputs(self, v):
        n = self.n
        if self.ids is None:
            ids = v.ints("id", n, self.dt, 0, 2**30)
            for i in range(n):
                for j in range(i):
                    v.assume(ids[i] != ids[j])
        else:
            ids = [np.dtype(self.dt).type(x) for x in self.ids[:n]]
        desc = []
        order = self.topo or None
        for i in range(n):
            if order:
                later = order[order.index(i) + 1:]
                d = ([-1] + later)[v.choice("d%d" % i, len(later) + 1)]
            else:
                d = v.choice("d%d" % i, n + 1) - 1
            desc.append(d)
        # depth from the root = snapshots before the end
        depth = []
        for i in range(n):
            k, d = 0, i
            while d >= 0 and k <= n:
                d = desc[d]
                k += 1
            if k > n:
                v.assume(False)
                k = 0
            depth.append(k)
        gap = [v.choice("gap%d" % i, 2) for i in range(n)] if self.gaps else [0] * n
        snap = [None] * n
        for i in sorted(range(n), key=lambda i: depth[i]):
            if desc[i] < 0:
                snap[i] = 50 - 3 * gap[i]
            elif snap[desc[i]] is not None:
                snap[i] = snap[desc[i]] - 1 - gap[i]
            else:
                snap[i] = 0
        if self.alphabet:
            m = [np.dtype(self.mdt).type(self.alphabet[v.choice("m%d" % i, len(self.alphabet))]) for i in range(n)]
        else:
            m = [v.real("m%d" % i, self.mdt, 1, 1000) if np.dtype(self.mdt).kind == "f" else
                 v.int("m%d" % i, 1, 1000, self.mdt) for i in range(n)]
        out = []
        for i in range(n):
            if desc[i] >= 0:
                out.append(ids[desc[i]])
            elif self.missing:
                x = v.int("x%d" % i, -9, 2**30 + 9, self.dt)
                for y in ids:
                    v.assume(x != y)
                out.append(x)
            else:
                out.append(np.dtype(self.dt).type(-1 if self.dt[0] == "i" else 2**31))
        return dict(ids=ids, desc=desc, did=out, snap=snap, m=m)

    gaps = False
    missing = False

    def arrays(self, env, inp):
        return (env.arr(inp["ids"], self.dt), env.arr(inp["did"], self.dt),
                env.arr([np.int32(s) for s in inp["snap"]], "i4"), env.arr(inp["m"], self.mdt))

    def progs(self, inp):
        p = [[] for _ in range(self.n)]
        for i, d in enumerate(inp["desc"]):
            if d >= 0:
                p[d].append(i)
        return p

    def subtree(self, progs, i):
        out = [i]
        for j in progs[i]:
            out += self.subtree(progs, j)
        return out

    def same(self, chk, arrs, inp):
        for a, b in zip(arrs, (inp["ids"], inp["did"], [np.int32(s) for s in inp["snap"]], inp["m"])):
            chk.eqlist(els(a), list(b), "input changed")


class Depth(Trees):
    def rank(self, env, comm, r, inp):
        it = env.load(IT)
        ids, did, snap, m = a = self.arrays(env, inp)
        res = it.depth_first_index(ids, did, m)
        return dict(res=tuple(res), a=a)

    def oracle(self, chk, inp, outs):
        n = self.n
        self.same(chk, outs[0]["a"], inp)
        if len(outs[0]["res"]) != 3:
            chk.fail("%d arrays returned" % len(outs[0]["res"]))
        for x in outs[0]["res"]:
            if not is_array(x) or shp(x) != (n,) or np.dtype(x.dtype).kind not in "iu":
                chk.fail("result is not an integer array with one element per node")
        df, em, lp = ([int(x) for x in els(r)] for r in outs[0]["res"])
        if sorted(df) != list(range(1, n + 1)):
            chk.fail("depth first indexes are %s" % df)
        progs = self.progs(inp)
        m = inp["m"]
        for i in range(n):
            sub = self.subtree(progs, i)
            if sorted(df[j] for j in sub) != list(range(df[i], df[i] + len(sub))):
                chk.fail("indexes of the tree of node %d are not contiguous: %s" % (i, df))
            if lp[i] != df[i] + len(sub) - 1:
                chk.fail("last progenitor of node %d is %d (indexes %s)" % (i, lp[i], df))
            p = sorted(progs[i], key=lambda j: df[j])
            for a, b in zip(p, p[1:]):
                chk.that(m[a] >= m[b], "progenitors of node %d are not in descending order of mass" % i)
            end = i
            while progs[end]:
                end = min(progs[end], key=lambda j: df[j])
            if em[i] != df[end]:
                chk.fail("end of main branch of node %d is %d, expected %d" % (i, em[i], df[end]))


class MainProg(Trees):
    def rank(self, env, comm, r, inp):
        it = env.load(IT)
        ids, did, snap, m = a = self.arrays(env, inp)
        ntie, mp = it.find_main_progenitor(ids, did, snap, m)
        return dict(ntie=ntie, mp=mp, a=a)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        self.same(chk, o["a"], inp)
        progs = self.progs(inp)
        m = inp["m"]
        if shp(o["ntie"]) != (self.n,) or shp(o["mp"]) != (self.n,):
            chk.fail("wrong shapes")
        nt, mp = els(o["ntie"]), els(o["mp"])
        for i in range(self.n):
            if not progs[i]:
                chk.eq(mp[i], -1, "main progenitor of node %d without progenitors" % i)
                chk.eq(nt[i], 0, "ties of node %d without progenitors" % i)
                continue
            best = [sand(scalar_eq(mp[i], inp["ids"][j]), *[m[j] >= m[k] for k in progs[i]]) for j in progs[i]]
            chk.that(sor(*best), "main progenitor of node %d does not have the largest branch mass" % i)
            mx = m[progs[i][0]]
            for j in progs[i][1:]:
                mx = ite(m[j] > mx, m[j], mx) if is_sym(m[j]) or is_sym(mx) else max(m[j], mx)
            # near ties count, clearly smaller masses do not
            lo = hi = 0
            for j in progs[i]:
                lo = lo + b2i((mx - m[j]) * 200000 < m[j])
                hi = hi + b2i((mx - m[j]) * 50000 < m[j])
            chk.that(sand(nt[i] >= lo - 1, nt[i] <= hi - 1), "number of ties of node %d" % i)


class Masses(Trees):
    def rank(self, env, comm, r, inp):
        it = env.load(IT)
        ids, did, snap, m = a = self.arrays(env, inp)
        return dict(tree=it.find_progenitor_tree_mass(ids, did, snap, m),
                    branch=it.find_progenitor_branch_mass_delucia(ids, did, snap, m), a=a)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        self.same(chk, o["a"], inp)
        progs = self.progs(inp)
        m = [x if is_sym(x) else float(x) for x in inp["m"]]
        tree = []
        for i in range(self.n):
            s = 0
            for j in self.subtree(progs, i):
                s = s + (m[j] if not is_sym(m[j]) else self.widen(m[j]))
            tree.append(s)

        def branch(i):
            b = None
            for j in progs[i]:
                x = branch(j)
                b = x if b is None else ite(x > b, x, b) if is_sym(x) or is_sym(b) else max(x, b)
            own = m[i] if not is_sym(m[i]) else self.widen(m[i])
            return own if b is None else own + b
        for k, want in (("tree", tree), ("branch", [branch(i) for i in range(self.n)])):
            a = o[k]
            if shp(a) != (self.n,) or np.dtype(a.dtype) != np.dtype(self.mdt):
                chk.fail("%s masses: shape %s, type %s" % (k, shp(a), a.dtype))
            for i, (x, y) in enumerate(zip(els(a), want)):
                self.close(chk, x, y, "%s mass of node %d" % (k, i))

    def widen(self, x):
        return x

    def close(self, chk, x, y, msg):
        if is_sym(x) or is_sym(y):
            chk.that(x == y, msg)
        else:
            chk.that(abs(float(x) - float(y)) <= 1e-5 * abs(float(y)), "%s (%r, expected %r)" % (msg, x, y))


class Table(H):
    """Trees read from several files, indexed, and written as a table."""
    mpi = False
    needs_files = True
    nfiles = 2
    n = 3
    odd = False           # one more column
    bad = None            # which does not fit in the table

    def inputs(self, v):
        split = sorted(v.choice("split%d" % i, self.n + 1) for i in range(self.nfiles - 1))
        desc = [v.choice("d%d" % i, self.n - i) for i in range(self.n)]
        desc = [i + d if d else -1 for i, d in enumerate(desc)]
        return dict(split=split, desc=desc, m=[v.choice("m%d" % i, 3) + 1 for i in range(self.n)],
                    pos=[v.bits("p%d" % i, 32, "i4") for i in range(3 * self.n)],
                    flag=[v.bits("f%d" % i, 32, "i4") for i in range(self.n)] if self.odd else [])

    def data(self, env, inp):
        ids = [np.int64(10 * (i + 1)) for i in range(self.n)]
        depth = []
        for i in range(self.n):
            k, d = 0, i
            while d >= 0:
                d, k = inp["desc"][d], k + 1
            depth.append(k)
        return dict(nodeIndex=(ids, "i8", ()), descendantIndex=([ids[d] if d >= 0 else np.int64(-1) for d in inp["desc"]], "i8", ()),
                    snapshotNumber=([np.int32(20 - k) for k in depth], "i4", ()),
                    nodeMass=([np.float32(x) for x in inp["m"]], "f4", ()),
                    position=(inp["pos"], "i4", (3,)), **(dict(flag=(inp["flag"], "i4", ())) if self.odd else {}))

    def setup_files(self, env, inp):
        h5py = env.mod("h5py")
        d = self.data(env, inp)
        cut = [0] + inp["split"] + [self.n]
        for k in range(self.nfiles):
            with h5py.File(env.path("tree.%d.hdf5" % k), "w") as f:
                f.create_group("fileInfo").attrs["numberOfFiles"] = env.np.int32(self.nfiles)
                g = f.create_group("haloTrees")
                for nm, (x, dt, t) in d.items():
                    w = 3 if t else 1
                    g[nm] = env.arr(x[cut[k] * w:cut[k + 1] * w], dt, (cut[k + 1] - cut[k],) + t)
                if self.bad:
                    m = cut[k + 1] - cut[k]
                    sh = dict(long=(m + (k == 0),), short=(max(m - 1, 0),), two=(m, 2), cube=(m, 3, 3))[self.bad]
                    g["z"] = env.np.ones(sh, dtype="f4")

    def rank(self, env, comm, r, inp):
        mt = env.load("virgo.database.make_dtrees_table")
        if self.bad:
            try:
                mt.make_dtrees_table("MyTable", env.path("tree"), env.path("out"))
            except Exception:
                return dict(refused=True)
            return dict(refused=False)
        mt.make_dtrees_table("MyTable", env.path("tree"), env.path("out"))
        cols = self.columns()
        txt = env.read_text("out.sql")
        return dict(bin=env.parse_rows("out.dat", cols, self.n), txt=txt, size=env.file_size("out.dat"))

    def columns(self):
        # HDF5 gives the names in alphabetical order, new columns are added at the end
        return [("descendantIndex", "i8")] + ([("flag", "i4")] if self.odd else []) + [("nodeIndex", "i8"), ("nodeMass", "f4"), ("position_x", "i4"),
                ("position_y", "i4"), ("position_z", "i4"), ("snapshotNumber", "i4"), ("mBranch", "f4"),
                ("depthFirst", "i8"), ("endMainBranch", "i8"), ("lastProgenitor", "i8")]

    def oracle(self, chk, inp, outs):
        o = outs[0]
        if self.bad:
            if not o["refused"]:
                chk.fail("table written from a column which does not fit")
            return
        cols = self.columns()
        rowlen = sum(np.dtype(c[1]).itemsize for c in cols)
        if o["size"] != rowlen * self.n:
            chk.fail("table has %d bytes instead of %d" % (o["size"], rowlen * self.n))
        sql = {"i8": "bigint", "i4": "integer", "f4": "real"}
        lines = [x.strip().rstrip(",") for x in o["txt"].strip().splitlines()]
        want = ["create table MyTable ("] + ["%s %s NOT NULL" % (a, sql[b]) for a, b in cols] + [")"]
        if lines != want:
            chk.fail("table definition is %s" % lines)
        d = self.data(None, inp)
        names = [c[0] for c in cols]
        for i, row in enumerate(o["bin"]):
            row = dict(zip(names, row))
            for nm in ("nodeIndex", "descendantIndex", "snapshotNumber", "nodeMass"):
                chk.eq(row[nm], d[nm][0][i], "%s of row %d" % (nm, i))
            if self.odd:
                chk.eq(row["flag"], inp["flag"][i], "flag of row %d" % i)
            for k, s in enumerate("xyz"):
                chk.eq(row["position_" + s], inp["pos"][3 * i + k], "position of row %d" % i)
        # index columns
        rows = [dict(zip(names, row)) for row in o["bin"]]
        df = [int(x["depthFirst"]) for x in rows]
        if sorted(df) != list(range(1, self.n + 1)):
            chk.fail("depth first indexes are %s" % df)

        def sub(i):
            return [i] + [k for j in range(self.n) if inp["desc"][j] == i for k in sub(j)]

        def branch(i):
            return inp["m"][i] + max([branch(j) for j in range(self.n) if inp["desc"][j] == i], default=0)
        for i in range(self.n):
            if int(rows[i]["lastProgenitor"]) != df[i] + len(sub(i)) - 1:
                chk.fail("last progenitor of row %d" % i)
            if float(rows[i]["mBranch"]) != branch(i):
                chk.fail("branch mass of row %d" % i)
            p = sorted([j for j in range(self.n) if inp["desc"][j] == i], key=lambda j: df[j])
            for a, b in zip(p, p[1:]):
                if branch(a) < branch(b):
                    chk.fail("progenitors of row %d are not in order of branch mass" % i)


class Types(H):
    """SQL types correspond to the numpy types."""
    mpi = False
    TYPES = [("i4", "integer"), ("i8", "bigint"), ("f4", "real"), ("f8", "float"), ("S1", "char(1)"), ("S17", "char(17)"),
             ("u4", None), ("u8", None), ("i2", None), ("c8", None), ("U3", None), ("f2", None), ("?", None)]

    def inputs(self, v):
        return dict(k=v.choice("k", len(self.TYPES)))

    def rank(self, env, comm, r, inp):
        mt = env.load("virgo.database.make_dtrees_table")
        dt = np.dtype(self.TYPES[inp["k"]][0])
        try:
            s = mt.sql_type(dt)
        except ValueError:
            return dict(s=None)
        return dict(s=s, back=mt.numpy_type(s))

    def oracle(self, chk, inp, outs):
        dt, s = self.TYPES[inp["k"]]
        o = outs[0]
        if o["s"] != s:
            chk.fail("SQL type of %s is %s" % (dt, o["s"]))
        if s is not None and np.dtype(o["back"]) != np.dtype(dt):
            chk.fail("%s -> %s -> %s" % (dt, s, o["back"]))


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    A = (1, 2)
    for cls in ("Depth", "MainProg", "Masses"):
        for n in (0, 1, 2, 3):
            for dt in ("i4", "i8") if n < 3 else ("i8",):
                add(cls, "%d-%s" % (n, dt), n=n, dt=dt, w=3 ** n * 10)
        add(cls, "2-missing", n=2, missing=True, w=30)
        add(cls, "3-missing", n=3, missing=True, ids=[7, 3, 5], alphabet=A, w=60)
        add(cls, "4-alpha", n=4, ids=[40, 10, 30, 20], alphabet=A, w=300)
        add(cls, "5-alpha", n=5, ids=[5, 4, 9, 1, 2], topo=[3, 1, 0, 4, 2], alphabet=A, w=600)
        if cls == "MainProg":
            add(cls, "3-gaps", n=3, ids=[2, 3, 1], gaps=True, alphabet=(1, 1.000001, 3), w=200)
        else:
            add(cls, "3-gaps", n=3, ids=[2, 3, 1], gaps=True, alphabet=A, w=100)
        if T:
            add(cls, "4-real", n=4, ids=[40, 10, 30, 20], w=800)
            add(cls, "6-alpha", n=6, ids=[5, 4, 9, 1, 2, 8], topo=[3, 1, 0, 5, 4, 2], alphabet=A, w=5000)
            add(cls, "4-gaps", n=4, ids=[2, 3, 1, 8], gaps=True, alphabet=A, w=2000)
    add("Masses", "3-f4", n=3, ids=[2, 3, 1], mdt="f4", w=30)
    for n, nf in ((3, 1), (3, 2), (2, 3)):
        add("Table", "%d-%d" % (n, nf), n=n, nfiles=nf, w=100)
        add("Table", "odd-%d-%d" % (n, nf), n=n, nfiles=nf, odd=True, w=100)
    for b in ("long", "short", "two", "cube"):
        add("Table", "bad-" + b, n=2, nfiles=2, bad=b)
    add("Types", "t")
    return L
