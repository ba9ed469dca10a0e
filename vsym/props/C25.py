"""Group catalogues over several files and snapshots ordered by group (P-Gadget3, Gadget-4, Millennium-2, COCO)."""
from .common import *
from .C19 import bvals, nat
from .C21 import HDR, HLEN
from .C22 import sub_tab_p3, sub_tab_g4

BOUNDS = ("catalogues of 1-3 files with 0-2 groups and subgroups each and every element symbolic; snapshots of 1-3 files split "
          "at any place with up to 6 particles of up to 2 of the 6 types, symbolic group and subgroup offsets and lengths, "
          "any group read, two successive reads; 4 and 8 byte ids, both byte orders")
ASSUMPTIONS = ["groups which are read have at least one particle; offsets and ends of groups are below 2^31"]

MODS = {"p3": "virgo.formats.subfind_pgadget3", "mii": "virgo.sims.millennium2",
        "g4": "virgo.formats.subfind_gadget4", "coco": "virgo.sims.coco"}
HEAD = {"Ngroups", "TotNgroups", "Nids", "TotNids", "NTask", "Nsubgroups", "TotNsubgroups", "NFiles", "padding1", "Time",
        "Redshift", "HubbleParam", "BoxSize", "Omega0", "OmegaLambda", "flag_dp", "padding2"}


def is_p3(m):
    return m in ("p3", "mii")


def tab_layout(m, c, kw):
    return (sub_tab_p3 if is_p3(m) else sub_tab_g4)(c, kw)[0].b


def nel(shape):
    return int(np.prod(shape, dtype=int))


def write_tab(env, m, i, nfiles, c, tot, kw, end, val):
    """One subhalo_tab file; val(name, dtype, shape) gives the elements."""
    b = tab_layout(m, c, kw)
    known = dict(Ngroups=c["ng"], Nsubgroups=c["ns"], TotNgroups=tot[0], TotNsubgroups=tot[1], NTask=nfiles, NFiles=nfiles,
                 flag_dp=c.get("dp", 0))
    lens, cur = [], None
    for kind, nm, dt, sh in b:
        if kind == "mark":
            lens, cur = (lens, 0) if cur is None else (lens + [cur], None)
        elif cur is not None:
            cur += np.dtype(dt).itemsize * nel(sh)
    parts, k = [], 0
    for kind, nm, dt, sh in b:
        if kind == "mark":
            parts.append((end + "i4", [np.int32(lens[k // 2])]))
            k += 1
        elif nm in HEAD:
            parts.append((end + dt, [nat(dt).type(known.get(nm, 0))]))
        else:
            parts.append((end + dt, val(nm, dt, sh)))
    env.write_bin("groups_004/%ssubhalo_tab_004.%d" % ("" if is_p3(m) else "fof_", i), parts)


class Cat(H):
    """The catalogue is the concatenation of the files' blocks."""
    mpi = False
    needs_files = True
    m = "p3"
    kw = {}
    end = "<"
    nf = 2
    ng = (0, 1, 2)
    ns = (0, 2)
    names = None
    dp = 0

    def inputs(self, v):
        cs = []
        for i in range(self.nf):
            c = dict(ng=self.ng[v.choice("g%d" % i, len(self.ng))], ns=self.ns[v.choice("s%d" % i, len(self.ns))])
            if not is_p3(self.m):
                c["dp"] = self.dp
            cs.append(c)
        sel = self.names
        if sel == "any":
            b = tab_layout(self.m, dict(ng=1, ns=1), self.kw)
            all_ = [x[1] for x in b if x[0] == "ds" and x[1] not in HEAD]
            k = v.choice("k", len(all_))
            sel = [all_[k], all_[(k + 5) % len(all_)]]
        d = [{nm: bvals(v, "%d.%s" % (i, nm), nel(sh), dt) for kind, nm, dt, sh in tab_layout(self.m, c, self.kw)
              if kind == "ds" and nm not in HEAD} for i, c in enumerate(cs)]
        return dict(cs=cs, d=d, sel=sel)

    def setup_files(self, env, inp):
        tot = [sum(c[k] for c in inp["cs"]) for k in ("ng", "ns")]
        for i, c in enumerate(inp["cs"]):
            write_tab(env, self.m, i, self.nf, c, tot, self.kw, self.end, lambda nm, dt, sh: inp["d"][i][nm])

    def rank(self, env, comm, r, inp):
        kw = dict(self.kw)
        if inp["sel"] is not None:
            kw["datasets"] = list(inp["sel"])
        c = env.load(MODS[self.m]).GroupCatalogue(env.path("")[:-1] or ".", 4, **kw)
        names = list(c)
        return dict(n=len(c), names=[str(x) for x in names], d={str(k): c[k] for k in names}, has="NotThere" in c,
                    keys=[str(k) for k in c.keys()])

    def oracle(self, chk, inp, outs):
        o = outs[0]
        one = {nm: (dt, sh[1:]) for kind, nm, dt, sh in tab_layout(self.m, dict(ng=1, ns=1, dp=self.dp), self.kw)
               if kind == "ds" and nm not in HEAD}
        want = list(one) if inp["sel"] is None else inp["sel"]
        if sorted(o["names"]) != sorted(want) or sorted(o["keys"]) != sorted(want) or o["n"] != len(want) or o["has"]:
            chk.fail("datasets are %s, expected %s" % (o["names"], want))
        for nm in want:
            dt, sh = one[nm]
            e = flat(d.get(nm, []) for d in inp["d"])
            g = o["d"][nm]
            if shp(g) != (len(e) // nel(sh),) + sh:
                chk.fail("%s has shape %s, expected %s" % (nm, shp(g), (len(e) // nel(sh),) + sh))
            if np.dtype(g.dtype).newbyteorder("=") != nat(dt):
                chk.fail("%s has type %s, expected %s" % (nm, g.dtype, dt))
            chk.eqlist(els(g), e, nm)


class Sn(H):
    """A snapshot in several files with its catalogue."""
    mpi = False
    needs_files = True
    m = "p3"
    end = "<"
    nf = 2                  # snapshot files
    types = (1,)
    n = (5,)                # particles of each type
    idb = 8
    kw = {}

    def particles(self, v):
        """Where the files are cut, and the data."""
        cut = []
        for t, n in zip(self.types, self.n):
            c, at = [], 0
            for i in range(self.nf - 1):
                k = v.choice("cut%d.%d" % (t, i), n - at + 1)
                c.append(k)
                at += k
            cut.append(c + [n - at])
        d = {}
        for t, n in zip(self.types, self.n):
            d[t] = dict(Coordinates=bvals(v, "x%d" % t, 3 * n, "f4"), Velocities=bvals(v, "v%d" % t, 3 * n, "f4"),
                        ParticleIDs=bvals(v, "i%d" % t, n, "i%d" % self.idb))
        return dict(cut=cut, d=d)

    WIDTH = dict(Coordinates=3, Velocities=3, ParticleIDs=1)

    def write_snap(self, env, inp):
        E = self.end
        at = [0] * len(self.types)
        for i in range(self.nf):
            npart = [0] * 6
            tot = [0] * 6
            for k, t in enumerate(self.types):
                npart[t] = inp["cut"][k][i]
                tot[t] = self.n[k]
            h = {nm: [nat(t).type(0)] * k for nm, t, k in HDR}
            h["NumPart_ThisFile"] = [np.int32(x) for x in npart]
            h["NumPart_Total"] = [np.uint32(x) for x in tot]
            h["NumFilesPerSnapshot"] = [np.int32(self.nf)]
            h["MassTable"] = [np.float64(0.5)] * 6
            parts = [(E + "u4", [np.uint32(256)])] + [(E + t, h[nm]) for nm, t, _ in HDR] + \
                    [b"\0" * (256 - HLEN), (E + "u4", [np.uint32(256)])]
            for nm, dt in (("Coordinates", "f4"), ("Velocities", "f4"), ("ParticleIDs", "i%d" % self.idb)):
                w = self.WIDTH[nm]
                e = flat(inp["d"][t][nm][w * at[k]:w * (at[k] + npart[t])] for k, t in enumerate(self.types))
                if e:
                    mk = [np.uint32(len(e) * np.dtype(dt).itemsize)]
                    parts += [(E + "u4", mk), (E + dt, e), (E + "u4", mk)]
            env.write_bin("snapdir_004/sn_004.%d" % i, parts)
            for k, t in enumerate(self.types):
                at[k] += npart[t]

    def block(self, chk, inp, t, lo, hi, res, names, msg):
        """res holds particles lo..hi-1 of type t."""
        for nm in names:
            w = self.WIDTH[nm]
            e = inp["d"][t][nm][w * lo:w * hi]
            g = res[nm]
            sh = (hi - lo,) + ((3,) if w == 3 else ())
            if shp(g) != sh:
                chk.fail("%s: %s has shape %s, expected %s" % (msg, nm, shp(g), sh))
            if np.dtype(g.dtype).newbyteorder("=") != np.dtype("f4" if w == 3 else "i%d" % self.idb):
                chk.fail("%s: %s has type %s" % (msg, nm, g.dtype))
            chk.eqlist(els(g), e, "%s: %s" % (msg, nm))


class Range(Sn):
    """P-Gadget3: any range of type 1 particles; groups and subgroups by number."""
    what = "range"          # range, fof, sub
    calls = 1
    names = None
    ngr = 2                 # groups (or subgroups)
    tabs = 1

    def inputs(self, v):
        inp = self.particles(v)
        N = self.n[self.types.index(1)]
        ng = self.calls if self.what == "range" else self.ngr
        off, cnt = v.ints("off", ng, "i8", 0, N - 1), v.ints("cnt", ng, "i8", 1, N)
        for o, c in zip(off, cnt):
            v.assume(o + c <= N)
        inp.update(off=off, cnt=cnt, q=[v.choice("q%d" % i, ng) for i in range(self.calls)])
        if self.tabs > 1:
            inp["first"] = v.choice("first", ng + 1)      # groups in the first file
        return inp

    def setup_files(self, env, inp):
        self.write_snap(env, inp)
        ng = len(inp["off"]) if self.what == "fof" else 0
        ns = len(inp["off"]) if self.what == "sub" else 0
        first = inp.get("first", ng + ns)
        for i in range(self.tabs):
            lo, hi = (0, first) if i == 0 else (first, len(inp["off"]))
            c = dict(ng=hi - lo if ng else 0, ns=hi - lo if ns else 0)

            def val(nm, dt, sh):
                if nm in ("GroupOffset", "SubOffset"):
                    return [x.astype(np.dtype(dt)) for x in inp["off"][lo:hi]]
                if nm in ("GroupLen", "SubLen"):
                    return [x.astype(np.dtype(dt)) for x in inp["cnt"][lo:hi]]
                return [nat(dt).type(0)] * nel(sh)
            write_tab(env, self.m, i, self.tabs, c, (ng, ns), self.kw, self.end, val)

    def rank(self, env, comm, r, inp):
        s = env.load(MODS[self.m]).GroupOrderedSnapshot(env.path("")[:-1] or ".", "sn", 4, **self.kw)
        kw = dict(datasets=self.names) if self.names else {}
        out = []
        for q in inp["q"]:
            if self.what == "range":
                x = s.read_particle_range(inp["off"][q], inp["cnt"][q], **kw)
            else:
                x = (s.read_fof_group if self.what == "fof" else s.read_subfind_group)(q, **kw)
            out.append({k: x[k] for k in x})
        return out

    def oracle(self, chk, inp, outs):
        names = self.names or ("Coordinates", "Velocities", "ParticleIDs")
        for q, o in zip(inp["q"], outs[0]):
            if sorted(o) != sorted(names):
                chk.fail("result has %s" % sorted(o))
            lo = int(inp["off"][q])
            self.block(chk, inp, 1, lo, lo + int(inp["cnt"][q]), o, names, self.what)


class Fof(Sn):
    """Gadget-4: particles of a group by type with the subgroup of each."""
    m = "g4"
    tabs = 1
    nsub = (1, 1)           # most subgroups of each group
    by = "int"
    calls = 1

    def inputs(self, v):
        inp = self.particles(v)
        G = len(self.nsub)
        ln = [v.ints("len%d" % t, G, "i4", 0, n) for t, n in zip(self.types, self.n)]
        for x, n in zip(ln, self.n):
            v.assume(sum(x[1:], x[0]) <= n)
        ns = [v.choice("nsub%d" % g, k + 1) for g, k in enumerate(self.nsub)]
        sl = []
        for k, t in enumerate(self.types):
            row = []
            for g in range(G):
                s = v.ints("sub%d.%d" % (t, g), ns[g], "i4", 0, self.n[k])
                if s:
                    v.assume(sum(s[1:], s[0]) <= ln[k][g])
                row.append(s)
            sl.append(row)
        inp.update(len=ln, ns=ns, sl=sl, q=[v.choice("q%d" % i, G) for i in range(self.calls)])
        inp["split"] = [v.choice("gs", G + 1), v.choice("ss", sum(ns) + 1)] if self.tabs > 1 else [G, sum(ns)]
        return inp

    def setup_files(self, env, inp):
        self.write_snap(env, inp)
        G, S = len(self.nsub), sum(inp["ns"])
        first = offsets(inp["ns"])
        gt = [[np.int32(0)] * 6 for g in range(G)]
        st = [[np.int32(0)] * 6 for s in range(S)]
        for k, t in enumerate(self.types):
            for g in range(G):
                gt[g][t] = inp["len"][k][g]
            for i, x in enumerate(flat(inp["sl"][k])):
                st[i][t] = x
        for i in range(self.tabs):
            (g0, g1), (s0, s1) = [((0, a) if i == 0 else (a, n)) for a, n in zip(inp["split"], (G, S))]

            def val(nm, dt, sh):
                if nm == "GroupLenType":
                    return flat(gt[g0:g1])
                if nm == "SubLenType":
                    return flat(st[s0:s1])
                if nm == "Nsubs":
                    return [np.int32(x) for x in inp["ns"][g0:g1]]
                if nm == "FirstSub":
                    return [np.int32(x if y else -1) for x, y in zip(first[g0:g1], inp["ns"][g0:g1])]
                return [nat(dt).type(0)] * nel(sh)
            write_tab(env, self.m, i, self.tabs, dict(ng=g1 - g0, ns=s1 - s0), (G, S), self.kw, self.end, val)

    def rank(self, env, comm, r, inp):
        s = env.load(MODS[self.m]).GroupOrderedSnapshot(env.path("")[:-1] or ".", "sn", 4, **self.kw)
        out = []
        for q in inp["q"]:
            if self.by == "int":
                a = q
            elif self.by == "np":
                a = np.int64(q)
            else:
                i = int(q >= inp["split"][0])
                a = (i, q - inp["split"][0] * i)
                a = a if self.by == "tuple" else list(a) if self.by == "list" else env.arr([np.int64(x) for x in a], "i8")
            x = s.read_fof_group(a)
            out.append([{k: y[k] for k in y} for y in x])
        return out

    def oracle(self, chk, inp, outs):
        names = ("Coordinates", "Velocities", "ParticleIDs")
        first = offsets(inp["ns"])
        for q, o in zip(inp["q"], outs[0]):
            if len(o) != 6:
                chk.fail("%d particle types" % len(o))
            for t in range(6):
                if t not in self.types:
                    if o[t]:
                        chk.fail("particles of type %d" % t)
                    continue
                k = self.types.index(t)
                n = int(inp["len"][k][q])
                lo = sum(int(x) for x in inp["len"][k][:q])
                if n == 0:
                    if o[t] and any(shp(x)[0] for x in o[t].values()):
                        chk.fail("particles of type %d in a group without any" % t)
                    continue
                if sorted(o[t]) != sorted(names + ("SubNr",)):
                    chk.fail("type %d has %s" % (t, sorted(o[t])))
                self.block(chk, inp, t, lo, lo + n, o[t], names, "type %d" % t)
                nr = flat([first[q] + i] * int(x) for i, x in enumerate(inp["sl"][k][q]))
                chk.eqlist(els(o[t]["SubNr"]), nr + [-1] * (n - len(nr)), "SubNr of type %d" % t)


class NoGroups(Fof):
    """A snapshot in which no group was found can be opened."""
    nsub = ()

    def inputs(self, v):
        return dict(self.particles(v), ns=[], len=[[]], sl=[[]], split=[0, 0], q=[])

    def rank(self, env, comm, r, inp):
        s = env.load(MODS[self.m]).GroupOrderedSnapshot(env.path("")[:-1] or ".", "sn", 4, **self.kw)
        return [int(s.foflentype.shape[0]), int(s.sublentype.shape[0])]

    def oracle(self, chk, inp, outs):
        if outs[0] != [0, 0]:
            chk.fail("number of groups is %s" % outs[0])


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    for m in MODS:
        e = ">" if m in ("mii", "g4") else "<"
        add("Cat", m + "-all", m=m, end=e, nf=3 if T else 2, w=30)
        add("Cat", m + "-three", m=m, end=e, nf=3, ng=(0, 1), ns=(0, 1), w=30)
        add("Cat", m + "-any", m=m, end=e, names="any", ng=(1,), ns=(2,), w=20)
        add("Cat", m + "-some", m=m, end=e, names=("SubGrNr", "GroupLen", "SubPos"), kw=dict(id_bytes=4), w=20)
        if is_p3(m):
            add("Cat", m + "-opt", m=m, end=e, kw=dict(id_bytes=4, float_bytes=8, SO_VEL_DISPERSIONS=True), ng=(0, 2), w=20)
        else:
            add("Cat", m + "-dp", m=m, end=e, kw=dict(id_bytes=4), dp=1, ng=(0, 2), w=20)
    for m in ("p3", "mii"):
        for e in "<>":
            add("Range", "%s-range%s" % (m, e), m=m, end=e, n=(4,), w=40)
        add("Range", m + "-types", m=m, types=(0, 1), n=(2, 3), names=("ParticleIDs", "Coordinates"), idb=4, w=40)
        add("Range", m + "-three", m=m, nf=3, n=(3,), w=40)
        add("Range", m + "-again", m=m, calls=2, n=(3,), nf=2, w=60)
        add("Range", m + "-fof", m=m, what="fof", n=(4,), w=40)
        add("Range", m + "-sub", m=m, what="sub", n=(4,), kw=dict(id_bytes=4, float_bytes=8), w=40)
        add("Range", m + "-tabs", m=m, what="sub", ngr=3, tabs=2, n=(2,), kw=dict(SO_VEL_DISPERSIONS=True), w=40)
    for m in ("g4", "coco"):
        add("Fof", m + "-one<", m=m, n=(3,), nsub=(2,), w=40)
        add("Fof", m + "-one>", m=m, end=">", n=(2,), nsub=(1,), w=40)
        add("Fof", m + "-two", m=m, n=(4,), nsub=(0, 1), w=60)
        add("Fof", m + "-types", m=m, types=(1, 4), n=(2, 1), nsub=(0, 1), idb=4, kw=dict(id_bytes=4), w=60)
        add("Fof", m + "-three", m=m, nf=3, n=(3,), nsub=(0, 1), w=60)
        add("Fof", m + "-again", m=m, n=(3,), nsub=(0, 1), calls=2, w=60)
        add("Fof", m + "-tabs", m=m, n=(2,), nf=1, nsub=(1, 1), tabs=2, w=60)
        for by in ("np", "tuple", "list", "array"):
            add("Fof", m + "-by" + by, m=m, n=(2,), nf=1, nsub=(0, 1), tabs=2, by=by, w=60)
        add("NoGroups", m, m=m, n=(2,))
    if T:
        for m in ("p3", "mii"):
            add("Range", m + "-six", m=m, nf=3, n=(6,), w=600, limit=10 ** 6)
            add("Range", m + "-again3", m=m, nf=3, n=(4,), calls=2, w=600, limit=10 ** 6)
        for m in ("g4", "coco"):
            add("Fof", m + "-typesT", m=m, types=(1, 4), n=(2, 2), nsub=(1, 1), w=600, limit=10 ** 6)
            add("Fof", m + "-swap", m=m, end=">", n=(3,), nsub=(2,), w=600)
            add("Fof", m + "-six", m=m, nf=3, n=(5,), nsub=(1, 1), w=600, limit=10 ** 6)
            add("Fof", m + "-types3", m=m, nf=2, types=(0, 1, 5), n=(2, 2, 2), nsub=(1, 1), w=600, limit=10 ** 6)
    return L
