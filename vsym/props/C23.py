"""sanity_check() of the catalogue classes against independent definitions of consistency."""
from .common import *
from .C22 import Layout, FM, SM
from . import C22

BOUNDS = ("0-2 groups, 0-3 subgroups, ids and halos per file; every count in the header, length, offset, pointer, id and mass an "
          "unrestricted value of its type; NaN and infinities in every checked block; files with missing or extra bytes; "
          "snapshots with up to 3 particles in grids of 2 and 4 cells per side (8 or 64 hash cells, one file)")
ASSUMPTIONS = ["a catalogue is inconsistent if it breaks one of the relations which the method says it checks, in exact "
               "arithmetic; other relations are not required",
               "masses and positions closer to a tolerance than 1 percent of it may be judged either way"]


def Z(x):
    """Exact integer value of x (no wrapping)."""
    if is_sym(x):
        return x.as_int() if isinstance(x, SBool) else SInt(x.t, x.lo, x.hi, None)
    return int(x)


def every(xs):
    r = True
    for x in xs:
        r = sand(r, x)
    return r


def fin(x):
    return True if is_sym(x) else bool(np.isfinite(float(x)))


def finite(*bl):
    return every(fin(x) for b in bl for x in b)


def nonneg(*bl):
    return every((x >= 0 if is_sym(x) else bool(float(x) >= 0)) for b in bl for x in b)


def sub_common(b, groups_nonneg, subs_finite, subs_nonneg):
    """Relations checked for lgadget3 and pgadget3 subhalo tables."""
    tn, tg, ts = (Z(b[k][0]) for k in ("TotNids", "TotNgroups", "TotNsubgroups"))
    ok = [tn >= 0, tg >= 0, ts >= 0]
    small = tn < 2 ** 31
    for ln, of in (("GroupLen", "GroupOffset"), ("SubLen", "SubOffset")):
        for n, o in zip(b[ln], b[of]):
            ok.append(Z(n) >= 0)
            ok.append(simplies(small, sand(Z(o) >= 0, Z(o) + Z(n) <= tn)))
    for n, f in zip(b["Nsubs"], b["FirstSub"]):
        ok.append(Z(n) >= 0)
        ok.append(simplies(Z(n) > 0, sand(Z(f) >= 0, Z(f) + Z(n) <= ts)))
    for k in groups_nonneg:
        ok += [finite(b[k]), nonneg(b[k])]
    for k in subs_finite:
        ok.append(finite(b[k]))
    for k in subs_nonneg:
        ok += [finite(b[k]), nonneg(b[k])]
    g = [Z(x) for x in b["SubGrNr"]]
    ok += [sand(x >= 0, x < tg) for x in g]
    ok += [x <= y for x, y in zip(g, g[1:])]
    return every(ok)


HM = ["Halo_%s_%s200" % (q, x) for x in ("Mean", "Crit", "TopHat") for q in "MR"]
G3 = ["Halo_M_Mean200", "Halo_M_Crit200", "Halo_M_TopHat200", "GroupVelDisp"]
S3 = ["SubPos", "SubVel", "SubCofM", "SubSpin"]
N3 = ["SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"]
GP = ["GroupMass"] + HM
L2F = HM + ["SubPos", "SubVel", "SubVelDisp", "SubVmax", "SubSpin", "SubHalfMass"]


def p_sub_l3(b, c):
    return sub_common(b, G3, S3, N3)


def p_sub_p3(b, c):
    return sub_common(b, GP, S3, ["SubMass"] + N3)


def p_ids(b, c):
    ids = [Z(x) for x in b["GroupIDs"]]
    return every(x != y for i, x in enumerate(ids) for y in ids[:i])


def p_gtab_l2(b, c):
    n = Z(b["Nids"][0])
    ln, of = [Z(x) for x in b["GroupLen"]], [Z(x) for x in b["GroupOffset"]]
    return every([sum(ln, 0) == n] + [sand(x >= 0, x < n) for x in of] +
                 [of[i + 1] == of[i] + ln[i] for i in range(len(ln) - 1)])


def p_ids_l2(b, c):
    ids = [Z(x) for x in b["GroupIDs"]]
    key = [x // 2 ** 34 for x in ids]
    low = [x - k * 2 ** 34 for x, k in zip(ids, key)]
    z = sum((b2i(x == 0) for x in low), 0)
    return every([k < 256 ** 3 for k in key] + [x <= 2160 ** 3 for x in low] + [z <= 1])


def p_stab_l2(b, c):
    n, ng, ns = Z(b["Nids"][0]), c["ng"], c["ns"]
    per, first = [Z(x) for x in b["NsubPerHalo"]], [Z(x) for x in b["FirstSubOfHalo"]]
    ok = [x >= 0 for x in per] + [sum(per, 0) == ns]
    ok += [simplies(p > 0, sand(f >= 0, f < ns)) for p, f in zip(per, first)]
    ok += [sand(Z(o) >= 0, Z(o) + Z(k) <= n) for o, k in zip(b["SubOffset"], b["SubLen"])]
    # subhalo i belongs to the group in whose range of the running total it is
    for i, p in enumerate(b["SubParentHalo"]):
        p = Z(p)
        tot = 0
        hit = []
        for g in range(ng):
            hit.append(sand(p == g, tot <= i, i < tot + per[g]))
            tot = tot + per[g]
        r = False
        for h in hit:
            r = sor(r, h)
        ok.append(r)
    ok.append(finite(*[b[k] for k in L2F]))
    return every(ok)


def p_gtab_p3(b, c):
    ln = [Z(x) for x in b["GroupLen"]]
    of = [Z(x) for x in b["GroupOffset"]]
    ty = [Z(x) for x in b["GroupLenType"]]
    return every([sum(ty[6 * i:6 * i + 6], 0) == ln[i] for i in range(len(ln))] +
                 [of[i + 1] == of[i] + ln[i] for i in range(len(ln) - 1)])


def p_rock(b, c):
    n = c["npart"]
    ok = []
    names = c["names"]
    for row in b["Halo"]:
        s, k = Z(row[names.index("p_start")]), Z(row[names.index("num_p")])
        ok += [s >= 0, s + k <= n]
    return every(ok)


PLAIN = dict(TotNids=100, TotNgroups=9, TotNsubgroups=9, Nids=100, Nsubs=1, NsubPerHalo=1, FirstSub=0, FirstSubOfHalo=0,
             SubParentHalo=0)


class Sanity(Layout):
    pred = None
    nan = ()                # blocks in which a non-finite value may be put
    nbad = 0
    plain = False           # consistent values for all integers

    def inputs(self, v):
        c = {}
        for n, k in sorted(self.counts.items()):
            c[n] = tuple(k)[v.choice("c_" + n, len(k))]
        L, hdr = getattr(C22, self.lay)(c, self.kw)
        d = []
        for kind, path, dt, shape in L.b:
            dt = np.dtype(dt)
            n = int(np.prod(shape, dtype=int))
            if path in hdr:
                d.append([dt.type(c[hdr[path]])])
            elif path == self.nf:
                d.append([dt.type(7)])
            elif dt.names:
                c["names"] = list(dt.names)
                d.append([self.row(v, "%s.%d" % (path, i), dt) for i in range(n)])
            elif dt.kind == "S":
                d.append([b""] * n)
            elif self.plain and dt.kind in "iu":
                d.append([dt.type(PLAIN.get(path, 3))] * n)
            else:
                d.append(ivals(v, path, n, dt))
        b = {x[1]: e for x, e in zip(L.b, d)}
        self.pre(v, b, c)
        if self.nan:
            k = v.choice("where", len(self.nan) + 1)
            if k:
                e = b[self.nan[k - 1]]
                if e:
                    e[len(e) - 1] = np.dtype("f4").type((np.nan, np.inf, -np.inf)[v.choice("what", 3)])
        return dict(c=c, d=d, cut=(0, -1, -4, 1, 4)[v.choice("cut", 5)] if self.nbad else 0)

    def row(self, v, name, dt):
        out = []
        for f in dt.names:
            ft = dt.fields[f][0]
            n = int(np.prod(ft.shape, dtype=int))
            x = (ivals(v, "%s.%s" % (name, f), n, ft.base) if f in ("p_start", "num_p") else
                 [ft.base.type(3)] * n)
            if f == "num_p":
                v.assume(x[0] >= 0)
            out.append(tuple(x) if ft.shape else x[0])
        return out

    def pre(self, v, b, c):
        if self.pred == "p_stab_l2":
            for x in b["SubLen"]:
                v.assume(x >= 0)
        if self.pred == "p_gtab_p3":
            v.assume(Z(b["Nids"][0]) > 1)
            for i, m in enumerate(b["GroupMass"]):
                v.assume(m > 0)
                t = sum((x for x in b["GroupMassType"][6 * i + 1:6 * i + 6]), b["GroupMassType"][6 * i])
                d = t - m
                h, low = m * 1.01e-5, m * 0.99e-5
                v.assume(sor(sand(d <= low, d >= -low), d >= h, d <= -h))

    def layout(self, inp):
        return getattr(C22, self.lay)(inp["c"], self.kw)[0].b

    def setup_files(self, env, inp):
        Layout.setup_files(self, env, inp)
        if inp["cut"] < 0:
            env.truncate("f.bin", env.file_size("f.bin") + inp["cut"])
        elif inp["cut"]:
            env.extend("f.bin", inp["cut"])

    def rank(self, env, comm, r, inp):
        cls = getattr(env.load(self.modname), self.clsname)
        f = None if inp["cut"] else cls(env.path("f.bin"), **self.kw)
        try:
            if f is None:
                f = cls(env.path("f.bin"), **self.kw)
            f.sanity_check()
        except Exception as e:
            return type(e).__name__ + ": " + str(e)[:80]
        return None

    def oracle(self, chk, inp, outs):
        b = {x[1]: e for x, e in zip(self.layout(inp), inp["d"])}
        good = globals()[self.pred](b, inp["c"])
        if self.pred == "p_gtab_p3":
            for i, m in enumerate(b["GroupMass"]):
                t = sum((x for x in b["GroupMassType"][6 * i + 1:6 * i + 6]), b["GroupMassType"][6 * i])
                h = m * 1.0e-5
                good = sand(good, t - m <= h, t - m >= -h)
        if inp["cut"]:
            good = False
        if outs[0] is None:
            chk.that(good, "inconsistent file accepted")
        else:
            chk.that(snot(good), "consistent file refused: %s" % outs[0])


class Snap(H):
    """lgadget2.SnapshotFile: particles are in range and in the hash cell they are filed under."""
    mpi = False
    needs_files = True
    bits = 1
    h0 = 0
    cells = (1, 0, 2)       # particles per cell
    bad = None
    box = 64.0

    def inputs(self, v):
        n = sum(self.cells)
        pos = [v.real("x%d" % i, np.float32, -self.box / 2, 1.5 * self.box) for i in range(3 * n)]
        vel = [v.real("v%d" % i, np.float32) for i in range(3 * n)]
        ids = v.ints("id", n, "u8")
        ntot = [0, v.int("np1", 0, 2 ** 32 - 1, "u4"), v.int("np2", 0, 3, "u4"), 0, 0, 0]
        for x in vel:
            # clear of the limit
            v.assume(sor(sand(x <= 0.99e6, x >= -0.99e6), x >= 1.01e6, x <= -1.01e6))
        k = v.choice("nan", 3)
        if k:
            (pos, vel)[k - 1][1] = np.float32((np.nan, np.inf)[v.choice("what", 2)])
        inp = dict(pos=pos, vel=vel, ids=ids, ntot=ntot)
        h = self.box / 2 ** self.bits
        if k != 1:
            for c, i in self.owner():
                for j in range(3):
                    x = pos[3 * i + j]
                    d0 = self.dist(x, c[j] * h, h)
                    v.assume(sor(d0 <= 0, d0 >= h * 0.01))
                    # a box length may only be added or subtracted for positions that are in the box
        return inp

    def owner(self):
        """(cell coordinates, particle) pairs."""
        i = 0
        for k, n in enumerate(self.cells):
            for _ in range(n):
                yield HILB[self.bits][self.h0 + k], i
                i += 1

    def dist(self, x, lo, h):
        """How far outside [lo, lo+h] x is, allowing for one period."""
        def out(y):
            return smax2(lo - y, y - lo - h)
        a = out(x)
        for s in (-self.box, self.box):
            a = smin2(a, out(x + s))
        return a

    def setup_files(self, env, inp):
        n, nh = sum(self.cells), len(self.cells)
        hdr = [("<u4", [0, n, 0, 0, 0, 0]), ("<f8", [0.0] * 8), ("<i4", [0, 0]), ("<u4", inp["ntot"]), ("<i4", [0, 1]),
               ("<f8", [self.box, 0.25, 0.75, 0.73]), ("<i4", [0, 0, 8 ** self.bits]), b"\0" * 84]
        off = [sum(self.cells[:k]) for k in range(nh)]

        def rec(*p):
            m = 0
            for x in p:
                m += len(x) if isinstance(x, bytes) else np.dtype(x[0]).itemsize * len(x[1])
            return [("<i4", [m])] + list(p) + [("<i4", [m])]
        env.write_bin("f.bin", rec(*hdr) + rec(("<f4", inp["pos"])) + rec(("<f4", inp["vel"])) + rec(("<u8", inp["ids"])) +
                      rec(("<i4", [self.h0, self.h0 + nh - 1])) + rec(("<i4", off)))

    def rank(self, env, comm, r, inp):
        f = env.load(self.modname).SnapshotFile(env.path("f.bin"))
        try:
            f.sanity_check()
        except Exception as e:
            return type(e).__name__ + ": " + str(e)[:80]
        return None

    def oracle(self, chk, inp, outs):
        pos, vel = inp["pos"], inp["vel"]
        tot = Z(inp["ntot"][1]) + Z(inp["ntot"][2]) * 2 ** 32
        good = sand(finite(pos, vel), every(Z(x) <= tot for x in inp["ids"]))
        good = sand(good, every(sand(x >= 0, x <= self.box) for x in pos if fin(x)))
        good = sand(good, every(sand(x <= 1.0e6, x >= -1.0e6) for x in vel if fin(x)))
        h = self.box / 2 ** self.bits
        for c, i in self.owner():
            for j in range(3):
                if fin(pos[3 * i + j]):
                    good = sand(good, self.dist(pos[3 * i + j], c[j] * h, h) <= 0)
        if outs[0] is None:
            chk.that(good, "inconsistent snapshot accepted")
        else:
            chk.that(snot(good), "consistent snapshot refused: %s" % outs[0])


def smax2(a, b):
    return ite(a >= b, a, b)


def smin2(a, b):
    return ite(a <= b, a, b)


def hilbert(bits):
    """Cells in order of their Peano-Hilbert keys (the reference curve of C17)."""
    from .C17 import Ref
    r = range(2 ** bits)
    return [c for _, c in sorted((Ref.key(x, y, z, bits), (x, y, z)) for x in r for y in r for z in r)]


class _Hilb(dict):
    def __missing__(self, b):
        self[b] = hilbert(b)
        return self[b]


HILB = _Hilb()


def cases(tier):
    L = []
    T = tier == "thorough"
    N = 4 if T else 3

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))

    def san(name, lay, mods, cls, kws, counts, pred, nf, nan=(), nbad=1, w=20):
        for m in mods:
            for i, kw in enumerate(kws):
                k = dict(lay=lay, modname=m, clsname=cls, kw=kw, pred=pred, nf=nf)
                tag = "%s-%s-%d" % (name, m.split(".")[-1], i)
                few = i and lay.startswith("sub_tab") and not T
                for ns in [(x,) for x in counts["ns"]] if "ns" in counts and not few else [None]:
                    add("Sanity", tag + ("-%d" % ns if ns else ""), w=w + 40,
                        counts={n: (1,) for n in counts} if few else dict(counts, ns=ns) if ns else counts, **k)
                if nan:
                    add("Sanity", tag + "-nan", counts={n: (1,) for n in counts}, nan=nan, plain=not T, w=w, **k)
                if nbad:
                    add("Sanity", tag + "-cut", counts={n: (0, 1) for n in counts}, nbad=1, plain=not T, w=w, **k)
    R = tuple(range(N))
    G, S = dict(ng=R, ns=R), dict(nid=R + (N,))
    l2 = [FM + "subfind_lgadget2", SM + "millennium"]
    san("gtab", "group_tab_l2", l2[:1], "GroupTabFile", [{}], dict(ng=R + (N,), nm=(0, 1)), "p_gtab_l2", "NTask", nbad=0)
    san("gids", "ids_l2_NTask", l2[:1], "GroupIDsFile", [{}, dict(id_bytes=4)], S, "p_ids_l2", "NTask", nbad=0)
    san("sids", "ids_l2_NFiles", l2[:1], "SubIDsFile", [{}, dict(id_bytes=4)], S, "p_ids_l2", "NFiles", nbad=0)
    san("stab", "sub_tab_l2", l2[:1], "SubTabFile", [{}], G, "p_stab_l2", "NFiles", nan=L2F, nbad=0)
    san("stab", "sub_tab_l3", [FM + "subfind_lgadget3"], "SubTabFile", [{}, dict(float_bytes=8, SUB_SHAPES=True)], G,
        "p_sub_l3", "NTask", nan=G3 + S3 + N3)
    san("stab", "mxxl_sub_tab", [SM + "mxxl"], "SubTabFile", [{}], dict(ng=(1,), ns=(1,)), "p_sub_l3", "NTask")
    san("sids", "sub_ids_l3", [FM + "subfind_lgadget3"], "SubIDsFile", [{}, dict(id_bytes=8)], S, "p_ids", "NTask")
    san("gids", "ids_p3", [FM + "subfind_pgadget3"], "GroupIDsFile", [{}, dict(id_bytes=4)], S, "p_ids", "NTask")
    san("sids", "ids_p3", [FM + "subfind_pgadget3"], "SubIDsFile", [{}, dict(id_bytes=4)], S, "p_ids", "NTask")
    san("gtab", "group_tab_p3", [FM + "subfind_pgadget3"], "GroupTabFile", [{}, dict(float_bytes=8)], dict(ng=R),
        "p_gtab_p3", "NTask")
    san("stab", "sub_tab_p3", [FM + "subfind_pgadget3"], "SubTabFile", [{}, dict(float_bytes=8, SO_VEL_DISPERSIONS=True)], G,
        "p_sub_p3", "NTask", nan=GP + S3 + ["SubMass"] + N3)
    for t, lay, m, p in (("stab3", "sub_tab_p3", "subfind_pgadget3", "p_sub_p3"), ("stab3", "sub_tab_l3", "subfind_lgadget3", "p_sub_l3")):
        san(t, lay, [FM + m], "SubTabFile", [{}], dict(ng=(1, 2), ns=(3,)), p, "NTask", nbad=0)
    san("rock", "rockstar", [FM + "rockstar"], "HalosFile", [{}], dict(nhalo=R, npart=(0, 1, 3), rev=(1, 2)), "p_rock", None,
        nbad=0)
    for m in l2[:1]:
        for bits, h0, cells in ((1, 0, (1, 0, 1, 0, 0, 0, 0, 0)), (1, 3, (0, 1, 1)), (1, 7, (1,)), (2, 20, (1, 0, 1)),
                                (2, 61, (0, 1, 0))) + (((2, 0, (1,) * 3), (1, 0, (0, 2, 0, 0, 1)))
                                                       if T else ()):
            add("Snap", "%s-%d-%d" % (m.split(".")[-1], bits, h0), modname=m, bits=bits, h0=h0, cells=cells, w=100)
    return L
