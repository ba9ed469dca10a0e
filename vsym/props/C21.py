"""formats.gadget_snapshot: binary Gadget snapshots and the automatic choice of format."""
from .common import *
from .C19 import bvals, nat

BOUNDS = ("0-2 particles of up to 3 of the 6 types, any mass table, either byte order, 4 or 8 bytes per number in every record, "
          "files ending after any record, 0-2 extra fields; every header and particle value symbolic; start and end "
          "markers any 32 bit value (except the length of the same record in the other precision), one or two at a time; files of other formats and truncated files")
ASSUMPTIONS = ["particle values are distinguishable integers and reals; non-finite values are not included"]

GS = "virgo.formats.gadget_snapshot"
SPH = (True,) + (False,) * 5
ALL = (True,) * 6
STD = (("Coordinates", "float", (3,), ALL), ("Velocities", "float", (3,), ALL), ("ParticleIDs", "int", (), ALL),
       ("Masses", "float", (), None), ("InternalEnergy", "float", (), SPH), ("Density", "float", (), SPH),
       ("SmoothingLength", "float", (), SPH))
X1 = ("Abundance", "float", (2, 2), (True, False, False, False, True, False))
X2 = ("Group", "int", (), ALL)
HDR = [("NumPart_ThisFile", "i4", 6), ("MassTable", "f8", 6), ("Time", "f8", 1), ("Redshift", "f8", 1), ("Flag_Sfr", "i4", 1),
       ("Flag_Feedback", "i4", 1), ("NumPart_Total", "u4", 6), ("Flag_Cooling", "i4", 1), ("NumFilesPerSnapshot", "i4", 1),
       ("BoxSize", "f8", 1), ("Omega0", "f8", 1), ("OmegaLambda", "f8", 1), ("HubbleParam", "f8", 1),
       ("Flag_StellarAge", "i4", 1), ("Flag_Metals", "i4", 1), ("NumPart_Total_HighWord", "u4", 6)]
HLEN = sum(np.dtype(t).itemsize * n for _, t, n in HDR)


class Snap(H):
    mpi = False
    needs_files = True
    types = (0, 1)          # types which may have particles
    counts = (0, 2)
    mt = (0, 1)             # types whose mass may be in the table
    end = "<"
    extra = ()
    exlist = False
    bits8 = None            # precision per record: None = a choice for all together
    cut = True
    via = "cls"

    def recs(self, inp):
        """Records in the file: (name, kind, shape, types, bytes)."""
        n = inp["n"]
        out = []
        for k, (nm, kind, sh, pt) in enumerate(STD + tuple(self.extra)):
            if pt is None:
                pt = tuple(not t for t in inp["tab"])
            if sum(n[i] for i in range(6) if pt[i]) == 0:
                continue
            out.append((nm, kind, sh, pt, inp["prec"][k]))
        return out[:inp["nrec"]]

    def inputs(self, v):
        n = [0] * 6
        for t in self.types:
            n[t] = self.counts[v.choice("n%d" % t, len(self.counts))]
        tab = [False] * 6
        for t in self.mt:
            tab[t] = v.bool("tab%d" % t)
            tab[t] = bool(tab[t])
        if self.bits8 is None:
            p = (4, 8)[v.choice("prec", 2)]
            q = (4, 8)[v.choice("iprec", 2)]
            prec = [q if x[1] == "int" else p for x in STD + tuple(self.extra)]
        else:
            prec = [(4, 8)[v.choice("prec%d" % i, 2)] for i in range(len(STD) + len(self.extra))]
        inp = dict(n=n, tab=tab, prec=prec, nrec=99)
        full = len(self.recs(inp))
        if self.cut and full:
            inp["nrec"] = full - v.choice("missing", full + 1)
        h = {}
        for nm, t, k in HDR:
            h[nm] = bvals(v, nm, k, t)
        h["NumPart_ThisFile"] = [np.int32(x) for x in n]
        for i in range(6):
            if tab[i]:
                v.assume(h["MassTable"][i] > 0)
            else:
                h["MassTable"][i] = np.float64(0)
        inp["h"] = h
        inp["d"] = [[bvals(v, "%s.%d" % (nm, i), n[i] * int(np.prod(sh, dtype=int)), self.dt(kind, b)) if pt[i] else []
                     for i in range(6)] for nm, kind, sh, pt, b in self.recs(inp)]
        return inp

    @staticmethod
    def dt(kind, b):
        return np.dtype(("i" if kind == "int" else "f") + str(b))

    def markers(self, inp):
        out = [256, 256]
        for nm, kind, sh, pt, b in self.recs(inp):
            L = b * int(np.prod(sh, dtype=int)) * sum(inp["n"][i] for i in range(6) if pt[i])
            out += [L, L]
        return [np.uint32(x) for x in out]

    def setup_files(self, env, inp):
        m = inp.get("m") or self.markers(inp)
        E = self.end
        parts = [(E + "u4", [m[0]])] + [(E + t, inp["h"][nm]) for nm, t, _ in HDR] + [b"\x55" * (256 - HLEN), (E + "u4", [m[1]])]
        for k, ((nm, kind, sh, pt, b), d) in enumerate(zip(self.recs(inp), inp["d"])):
            parts += [(E + "u4", [m[2 + 2 * k]])] + [(E + self.dt(kind, b).str[1:], x) for x in d if x]
            parts += [(E + "u4", [m[3 + 2 * k]])]
        env.write_bin("snap", parts)

    def open(self, env):
        ex = (list(self.extra) if self.exlist else tuple(self.extra)) if self.extra else None
        m = env.load(GS)
        return (m.GadgetBinarySnapshotFile if self.via == "cls" else m.open)(env.path("snap"), extra=ex)

    def rank(self, env, comm, r, inp):
        try:
            f = self.open(env)
        except (IOError, OSError):
            return None
        res = {}
        for i in range(6):
            for x in STD + tuple(self.extra):
                nm = "PartType%d/%s" % (i, x[0])
                if nm in f:
                    res[nm] = f[nm][...]
        return dict(res=res, h={nm: f["Header"].attrs[nm] for nm, _, _ in HDR}, top=sorted(k for k in f.keys()))

    def oracle(self, chk, inp, outs):
        o = outs[0]
        recs = self.recs(inp)
        need = 3 if sum(inp["n"]) else 0
        if len(recs) < need:
            if o is not None:
                chk.fail("a file without positions, velocities or ids was accepted")
            return
        if o is None:
            chk.fail("valid file refused")
        for nm, t, k in HDR:
            g = o["h"][nm]
            if np.dtype(getattr(g, "dtype", type(g))).newbyteorder("=") != np.dtype(t):
                chk.fail("type of header field %s" % nm)
            chk.eqlist(els(g) if is_array(g) and shp(g) else [g if not is_array(g) else els(g)[0]], inp["h"][nm], nm)
        want = {}
        for (nm, kind, sh, pt, b), d in zip(recs, inp["d"]):
            for i in range(6):
                if pt[i] and inp["n"][i]:
                    want["PartType%d/%s" % (i, nm)] = (d[i], self.dt(kind, b), (inp["n"][i],) + tuple(sh))
        if set(o["res"]) != set(want):
            chk.fail("datasets %s, expected %s" % (sorted(o["res"]), sorted(want)))
        if o["top"] != sorted(set(k.split("/")[0] for k in want) | {"Header"}):
            chk.fail("groups are %s" % o["top"])
        for nm, (d, dt, sh) in want.items():
            g = o["res"][nm]
            if np.dtype(g.dtype).newbyteorder("=") != dt or shp(g) != sh:
                chk.fail("%s has type %s and shape %s, expected %s and %s" % (nm, g.dtype, shp(g), dt, sh))
            chk.eqlist(els(g), d, nm)


class Marker(Snap):
    """Wrong record markers are never accepted."""
    cut = False
    which = 0               # first marker which is arbitrary
    pair = False            # and the following one too

    def inputs(self, v):
        inp = Snap.inputs(self, v)
        m = self.markers(inp)
        w = self.which
        if w >= len(m):
            v.assume(False)
        for k in ([w, w + 1] if self.pair else [w]):
            g = int(m[k])
            m[k] = v.bits("m%d" % k, 32, "u4")
            if k >= 2 and k % 2 == 0:
                # the marker of the other precision is excluded: whether the rest of the file then fits depends on the data
                v.assume(m[k] != (g * 2 if self.recs(inp)[k // 2 - 1][4] == 4 else g // 2))
        inp["m"] = m
        return inp

    def oracle(self, chk, inp, outs):
        m, good = inp["m"], self.markers(inp)
        ok = True
        for a, b in zip(m, good):
            ok = sand(ok, a == b)
        if outs[0] is None:
            chk.that(snot(ok), "valid file refused")
            return
        chk.that(ok, "wrong record marker accepted")


class Cut(Snap):
    """Files which end too early."""
    cut = False

    def inputs(self, v):
        inp = Snap.inputs(self, v)
        n = 8 + 256 + sum(int(x) + 8 for x in self.markers(inp)[2::2])
        # any number of bytes that does not end with a complete record
        ends = [264]
        for x in self.markers(inp)[2::2]:
            ends.append(ends[-1] + 8 + int(x))
        inp["len"] = v.choice("len", n)
        inp["ends"] = ends
        return inp

    def setup_files(self, env, inp):
        Snap.setup_files(self, env, inp)
        env.truncate("snap", inp["len"])

    def oracle(self, chk, inp, outs):
        L, ends = inp["len"], inp["ends"]
        if L in ends:
            k = ends.index(L)
            if k < min(3, len(ends) - 1):
                if outs[0] is not None:
                    chk.fail("file without positions, velocities or ids accepted")
            elif outs[0] is None:
                chk.fail("valid file refused")
        elif outs[0] is not None:
            # stray bytes shorter than a marker after the last record are not a record
            last = max(e for e in ends if e <= L)
            if L - last >= 4 or ends.index(last) < min(3, len(ends) - 1):
                chk.fail("file cut in the middle of a record accepted: %d bytes" % L)


class Open(H):
    """open() recognises HDF5 and binary files and refuses anything else."""
    mpi = False
    needs_files = True
    KINDS = ("hdf5", "missing", "empty", "short", "text", "bin2")

    def inputs(self, v):
        return dict(kind=self.KINDS[v.choice("kind", len(self.KINDS))], n=ivals(v, "n", 6, "i4"), x=ivals(v, "x", 2, "f4"),
                    b=[v.bits("b%d" % i, 32, "u4") for i in range(4)])

    def setup_files(self, env, inp):
        k = inp["kind"]
        if k == "hdf5":
            f = env.mod("h5py").File(env.path("snap"), "w")
            g = f.create_group("Header")
            g.attrs["NumPart_ThisFile"] = env.arr(inp["n"], "i4")
            f["PartType1/Masses"] = env.arr(inp["x"], "f4")
            f.close()
        elif k == "empty":
            env.write_bin("snap", [])
        elif k == "short":
            env.write_bin("snap", [("<u4", [256]), b"\0" * 100])
        elif k == "text":
            env.write_bin("snap", [b"hello, world\n" * 40])
        elif k == "bin2":
            env.write_bin("snap", [("<u4", inp["b"]), b"\0" * 400])

    def rank(self, env, comm, r, inp):
        try:
            f = env.load(GS).open(env.path("snap"))
        except (IOError, OSError):
            return None
        h5 = isinstance(f, env.mod("h5py").File)
        if not h5:
            return dict(h5=False)
        out = dict(h5=True, n=f["Header"].attrs["NumPart_ThisFile"], x=f["PartType1/Masses"][...], mode=f.mode)
        f.close()
        return out

    def oracle(self, chk, inp, outs):
        o = outs[0]
        k = inp["kind"]
        if k == "hdf5":
            if o is None or not o["h5"]:
                chk.fail("HDF5 snapshot not opened as such")
            chk.eqlist(els(o["n"]), inp["n"], "Header")
            chk.eqlist(els(o["x"]), inp["x"], "Masses")
            if o["mode"] != "r":
                chk.fail("file opened with mode " + o["mode"])
        elif o is not None:
            if k == "bin2":
                chk.that(sor(inp["b"][0] == 256, inp["b"][0] == 65536), "file without a Gadget header accepted")
                # all zero afterwards: the end marker of the header is zero
                chk.fail("header without end marker accepted")
            chk.fail("%s file accepted" % k)


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    for e in "<>":
        add("Snap", "two%s" % e, end=e, w=60)
        add("Snap", "three%s" % e, end=e, types=(0, 1, 5), mt=(), counts=(0, 1), w=60)
        add("Snap", "mass%s" % e, end=e, types=(0, 2, 4), mt=(0, 2, 4), counts=(1,), cut=False, w=60)
        add("Snap", "prec%s" % e, end=e, types=(0, 3), mt=(), counts=(1,), bits8=1, cut=False, w=90)
        add("Snap", "extra%s" % e, end=e, types=(0, 4), mt=(4,), counts=(0, 1), extra=(X1, X2), w=90)
        add("Snap", "extralist%s" % e, end=e, types=(0, 1), mt=(1,), counts=(0, 2), extra=(X1,), exlist=True)
        add("Snap", "open%s" % e, end=e, via="open", types=(0, 1), mt=(0,), counts=(1,), w=30)
        add("Snap", "openextra%s" % e, end=e, via="open", types=(0, 1), mt=(0,), counts=(1,), extra=(X1, X2), w=60)
        for w in range(12):
            add("Marker", "%d%s" % (w, e), end=e, which=w, types=(0, 1), mt=(1,), counts=(1,), w=10)
        for w in (0, 2, 4, 8):
            add("Marker", "pair%d%s" % (w, e), end=e, which=w, pair=True, types=(0, 1), mt=(1,), counts=(1,), w=10)
    add("Cut", "all", types=(0, 1), mt=(1,), counts=(1,), w=100, limit=100000)
    add("Open", "all")
    if T:
        for e in "<>":
            add("Snap", "four%s" % e, end=e, types=(0, 1, 3, 5), mt=(0, 1, 3, 5), counts=(0, 1, 3), w=600, limit=10 ** 6)
            add("Snap", "precall%s" % e, end=e, types=(0, 1, 4), mt=(1,), counts=(0, 2), bits8=1, extra=(X1, X2), w=600,
                limit=10 ** 6)
    return L
