"""Layouts of the catalogue formats: every block is found where the format has it."""
from .common import *
from .C19 import bvals, nat

BOUNDS = ("0-2 groups, subgroups, ids, halos and trees per file with every element of every block symbolic; both byte orders "
          "where the format is recognised automatically (number of files 1..65535, any record marker); 4 and 8 byte ids and "
          "floats; all format flags; the 4 Gadget versions, Millennium, MXXL, COCO, MPA trees, Rockstar, Velociraptor")
ASSUMPTIONS = ["the layouts are those described in vsym/props/C22.py (from the formats' own writers as far as known)",
               "structures (Rockstar, Velociraptor, tree files) are in native byte order"]

F = {4: "f4", 8: "f8"}
I = {4: "u4", 8: "u8"}


class Lay:
    """Collects the blocks of a file: (path, dtype, shape); records have markers."""

    def __init__(self):
        self.b = []

    def ds(self, path, dt, shape=()):
        self.b.append(("ds", path, dt, tuple(shape)))
        return self

    def at(self, path, dt, shape=()):
        self.b.append(("at", path, dt, tuple(shape)))
        return self

    def many(self, names, dt, shape=()):
        for n in names.split():
            self.ds(n, dt, shape)
        return self

    def mark(self):
        self.b.append(("mark", None, None, None))
        return self

    def rec(self, path, dt, shape=()):
        return self.mark().ds(path, dt, shape).mark()

    def gap(self, n):
        self.b.append(("gap", None, None, n))
        return self


def group_tab_l2(c, k):
    L = Lay().ds("Ngroups", "i4").ds("Nids", "i4").ds("TotNgroups", "i4").ds("NTask", "i4")
    L.many("GroupLen GroupOffset", "i4", (c["ng"],)).ds("GroupMinLen", "i4").ds("Count", "i4", (c["nm"],))
    return L, dict(Ngroups="ng", GroupMinLen="nm")


def ids_l2(nf):
    def f(c, k):
        L = Lay().ds("Ngroups", "i4").ds("Nids", "i4").ds("TotNgroups", "i4").ds(nf, "i4")
        return L.ds("GroupIDs", I[k.get("id_bytes", 8)], (c["nid"],)), dict(Nids="nid")
    return f


def sub_tab_l2(c, k):
    L = Lay().many("Ngroups Nids TotNgroups NFiles Nsubhalos", "i4")
    g, s = (c["ng"],), (c["ns"],)
    L.many("NsubPerHalo FirstSubOfHalo", "i4", g).many("SubLen SubOffset SubParentHalo", "i4", s)
    for x in ("Mean", "Crit", "TopHat"):
        L.ds("Halo_M_%s200" % x, "f4", g).ds("Halo_R_%s200" % x, "f4", g)
    L.many("SubPos SubVel", "f4", s + (3,)).many("SubVelDisp SubVmax", "f4", s).ds("SubSpin", "f4", s + (3,))
    L.ds("SubMostBoundID", I[k.get("id_bytes", 8)], s).ds("SubHalfMass", "f4", s)
    return L, dict(Ngroups="ng", Nsubhalos="ns")


def sub_tab_l3(c, k, dflt_id=4, sovd=False):
    f = F[k.get("float_bytes", 4)]
    g, s = (c["ng"],), (c["ns"],)
    L = Lay().ds("Ngroups", "i4").ds("TotNgroups", "i8").ds("Nids", "i4").ds("TotNids", "i8").ds("NTask", "i4")
    L.ds("Nsubgroups", "i4").ds("TotNsubgroups", "i8")
    L.many("GroupLen GroupOffset", "i4", g).ds("GroupNr", "i8", g)
    L.many("GroupCofM GroupVel GroupPos", f, g + (3,))
    L.many("Halo_M_Mean200 Halo_M_Crit200 Halo_M_TopHat200 GroupVelDisp", f, g)
    if k.get("SO_VEL_DISPERSIONS", sovd):
        L.many("VelDisp_Mean200 VelDisp_Crit200 VelDisp_TopHat200", f, g)
    L.many("Nsubs FirstSub", "i4", g)
    L.many("SubLen SubOffset", "i4", s).many("SubGrNr SubNr", "i8", s)
    L.many("SubPos SubVel SubCofM SubSpin", f, s + (3,)).many("SubVelDisp SubVmax SubRVmax SubHalfMass", f, s)
    if k.get("SUB_SHAPES"):
        L.ds("SubShape", f, s + (6,))
    L.many("SubBindingEnergy SubPotentialEnergy", f, s).ds("SubProfile", f, s + (9,))
    return L, dict(Ngroups="ng", Nsubgroups="ns")


def mxxl_sub_tab(c, k):
    return sub_tab_l3(c, k, 8, True)


def sub_ids_l3(c, k):
    L = Lay().ds("Ngroups", "i4").ds("TotNgroups", "i8").ds("Nids", "i4").ds("TotNids", "i8").ds("NTask", "i4")
    return L.ds("NidsPrevious", "i8").ds("GroupIDs", I[k.get("id_bytes", 4)], (c["nid"],)), dict(Nids="nid")


def ids_p3(c, k):
    L = Lay().ds("Ngroups", "i4").ds("TotNgroups", "i4").ds("Nids", "i4").ds("TotNids", "i8").ds("NTask", "i4")
    return L.ds("SendOffset", "i4").ds("GroupIDs", I[k.get("id_bytes", 8)], (c["nid"],)), dict(Nids="nid")


def group_tab_p3(c, k):
    f = F[k.get("float_bytes", 4)]
    g = (c["ng"],)
    L = Lay().ds("Ngroups", "i4").ds("TotNgroups", "i4").ds("Nids", "i4").ds("TotNids", "i8").ds("NTask", "i4")
    L.ds("GroupLen", "i4", g).ds("GroupOffset", "u4", g).ds("GroupMass", f, g).many("GroupCofM GroupVel", f, g + (3,))
    L.ds("GroupLenType", "i4", g + (6,)).ds("GroupMassType", f, g + (6,))
    return L, dict(Ngroups="ng")


def sub_tab_p3(c, k):
    f = F[k.get("float_bytes", 4)]
    g, s = (c["ng"],), (c["ns"],)
    L = Lay().ds("Ngroups", "i4").ds("TotNgroups", "i4").ds("Nids", "i4").ds("TotNids", "i8").ds("NTask", "i4")
    L.ds("Nsubgroups", "i4").ds("TotNsubgroups", "i4")
    L.ds("GroupLen", "i4", g).ds("GroupOffset", "u4", g).ds("GroupMass", f, g).ds("GroupPos", f, g + (3,))
    for x in ("Mean", "Crit", "TopHat"):
        L.ds("Halo_M_%s200" % x, f, g).ds("Halo_R_%s200" % x, f, g)
    if k.get("SO_VEL_DISPERSIONS"):
        L.many("VelDisp_Mean200 VelDisp_Crit200 VelDisp_TopHat200", f, g)
    L.ds("ContaminationLen", "i4", g).ds("ContaminationMass", f, g).many("Nsubs FirstSub", "i4", g)
    L.many("SubLen SubOffset SubParent", "i4", s).ds("SubMass", f, s).many("SubPos SubVel SubCofM SubSpin", f, s + (3,))
    L.many("SubVelDisp SubVmax SubRVmax SubHalfMass", f, s).ds("SubMostBoundID", I[k.get("id_bytes", 8)], s)
    return L.ds("SubGrNr", "i4", s), dict(Ngroups="ng", Nsubgroups="ns")


def sub_tab_g4(c, k):
    f = "f8" if c.get("dp") else "f4"
    g, s = (c["ng"],), (c["ns"],)
    L = Lay().mark()
    L.many("Ngroups Nsubgroups Nids TotNgroups TotNsubgroups TotNids NFiles padding1", "i4")
    L.many("Time Redshift HubbleParam BoxSize Omega0 OmegaLambda", "f8").many("flag_dp padding2", "i4").mark()
    if c["ng"]:
        for n, d, t in [("GroupLen", "i4", ()), ("GroupMass", f, ()), ("GroupPos", f, (3,)), ("GroupVel", f, (3,)),
                        ("GroupLenType", "i4", (6,)), ("GroupMassType", f, (6,))] + [
                            ("Halo_%s_%s200" % (q, x), f, ()) for x in ("Mean", "Crit", "TopHat") for q in "MR"] + [
                                ("Nsubs", "i4", ()), ("FirstSub", "i4", ())]:
            L.rec(n, d, g + t)
    if c["ns"]:
        for n, d, t in [("SubLen", "i4", ()), ("SubMass", f, ()), ("SubPos", f, (3,)), ("SubVel", f, (3,)),
                        ("SubLenType", "i4", (6,)), ("SubMassType", f, (6,)), ("SubCofM", f, (3,)), ("SubSpin", f, (3,)),
                        ("SubVelDisp", f, ()), ("SubVmax", f, ()), ("SubRVmax", f, ()), ("SubHalfMassRad", f, ()),
                        ("SubHalfMassRadType", f, (6,)), ("SubMassInRad", f, ()), ("SubMassInRadType", f, (6,)),
                        ("SubMostBoundID", I[k.get("id_bytes", 8)], ()), ("SubGrNr", "i4", ()), ("SubParent", "i4", ())]:
            L.rec(n, d, s + t)
    return L, dict(Ngroups="ng", Nsubgroups="ns", flag_dp="dp")


def snap_l2(c, k):
    H_ = "Header/"
    n = (c["np"],)
    L = Lay().mark().at(H_ + "NumPart_ThisFile", "u4", (6,)).at(H_ + "MassTable", "f8", (6,)).at(H_ + "Time", "f8")
    L.at(H_ + "Redshift", "f8").at(H_ + "Flag_Sfr", "i4").at(H_ + "Flag_Feedback", "i4").at(H_ + "NumPart_Total", "u4", (6,))
    L.at(H_ + "Flag_Cooling", "i4").at(H_ + "NumFilesPerSnapshot", "i4")
    for x in ("BoxSize", "Omega0", "OmegaLambda", "HubbleParam"):
        L.at(H_ + x, "f8")
    for x in ("Flag_StellarAge", "Flag_Metals", "HashTabSize"):
        L.at(H_ + x, "i4")
    L.at(H_ + "fill", "u1", (84,)).mark()
    L.rec("PartType1/Coordinates", "f4", n + (3,)).rec("PartType1/Velocities", "f4", n + (3,))
    L.rec("PartType1/ParticleIDs", "u8", n)
    L.mark().ds("first_hash_cell", "i4").ds("last_hash_cell", "i4").mark().rec("blockid", "i4", (c["nh"],))
    return L, {"Header/NumPart_ThisFile": (1, "np"), "first_hash_cell": "h0", "last_hash_cell": "h1"}


def sub_desc(c, k):
    return Lay().ds("TotNsubhalos", "i4").many("HaloIndex SnapNum", "i4", (c["ns"],)), dict(TotNsubhalos="ns")


def mxxl_desc(c, k):
    s = (c["ns"],)
    return (Lay().ds("Nsubgroups", "i4").ds("SubMostBoundID", "u8", s).many("Desc_FileNr Desc_SubIndex", "i4", s),
            dict(Nsubgroups="ns"))


def mxxl_field(c, k):
    L = Lay().mark().ds("NTask", "i4").ds("BoxSize", "f8").many("nn isw_slabs_per_task", "i4").mark()
    L.rec("grid", "f4", (c["slabs"], c["nn"], c["nn"]))
    return L, dict(nn="nn", isw_slabs_per_task="slabs")


def tree_aux(c, k):
    S, T, H_, U = c["snaps"], c["trees"], c["halos"], c["uniq"]
    L = Lay().many("TotHalos Totunique Ntrees TotSnaps", "i4").many("CountID_Snap OffsetID_Snap", "i4", (S,))
    L.many("CountID_SnapTree OffsetID_SnapTree", "i4", (S, T)).many("Nunique OffsetID_Halo", "i4", (H_,))
    L.ds("IDs", I[k.get("id_bytes", 8)], (U,)).ds("Pos", "f4", (U, 3)).ds("Vel", "f8", (U, 3))
    return L, dict(TotHalos="halos", Totunique="uniq", Ntrees="trees", TotSnaps="snaps")


def tree_file(c, k):
    fl = [(n, "<i4") for n in "Descendant FirstProgenitor NextProgenitor FirstHaloInFOFgroup NextHaloInFOFgroup Len".split()]
    fl += [(n, "<f4") for n in "M_Mean200 M_Crit200 M_TopHat".split()] + [("Pos", "<f4", (3,)), ("Vel", "<f4", (3,))]
    fl += [("VelDisp", "<f4"), ("VMax", "<f4"), ("Spin", "<f4", (3,)), ("MostBoundID", "<" + I[k.get("id_bytes", 8)])]
    fl += [("SnapNum", "<i4"), ("FileNr", "<i4"), ("SubhaloIndex", "<i4"), ("SubhalohalfMass", "<f4")]
    if k.get("SAVE_MASS_TAB"):
        fl.append(("SubMassTab", "<f4", (6,)))
    L = Lay().many("Ntrees Nhalos", "i4").ds("NPerTree", "i4", (c["trees"],)).ds("HaloList", fl, (c["halos"],))
    return L, dict(Ntrees="trees", Nhalos="halos")


def rockstar(c, k):
    H_ = "Header/"
    L = Lay().at(H_ + "magic", "u8").at(H_ + "snap", "i8").at(H_ + "chunk", "i8")
    for x in ("scale", "om", "ol", "h0"):
        L.at(H_ + x, "f4")
    L.at(H_ + "bounds", "f4", (6,)).at(H_ + "num_halos", "i8").at(H_ + "num_particles", "i8").at(H_ + "box_size", "f4")
    L.at(H_ + "particle_mass", "f4").at(H_ + "particle_type", "i8").at(H_ + "format_revision", "i4")
    L.at(H_ + "rockstar_version", "S12").at(H_ + "unused", "S144")
    # struct halo, as laid out by a C compiler (8 byte integers aligned at multiples of 8)
    off, names, offs, fmts = 0, [], [], []

    def add(n, t, sh=()):
        nonlocal off
        dt = np.dtype("<" + t)
        off = -(-off // dt.itemsize) * dt.itemsize
        names.append(n)
        offs.append(off)
        fmts.append((dt, sh) if sh else dt)
        off += dt.itemsize * int(np.prod(sh, dtype=int))
    add("id", "i8")
    add("pos", "f4", (6,))
    add("corevel", "f4", (3,))
    add("bulkvel", "f4", (3,))
    for x in "m r child_r vmax_r mgrav vmax rvmax rs klypin_rs vrms".split():
        add(x, "f4")
    add("J", "f4", (3,))
    add("energy", "f4")
    add("spin", "f4")
    add("alt_m", "f4", (4,))
    for x in "Xoff Voff b_to_a c_to_a".split():
        add(x, "f4")
    add("A", "f4", (3,))
    add("b_to_a2", "f4")
    add("c_to_a2", "f4")
    add("A2", "f4", (3,))
    for x in "bullock_spin kin_to_pot m_pe_b m_pe_d".split():
        add(x, "f4")
    if c["rev"] >= 2:
        add("halfmass_radius", "f4")
    for x in "num_p num_child_particles p_start desc flags n_core".split():
        add(x, "i8")
    for x in "min_pos_err min_vel_err min_bulkvel_err".split():
        add(x, "f4")
    if k.get("hydro"):
        add("type", "i4")
        for x in "sm gas bh peak_density av_density".split():
            add(x, "f4")
    size = -(-off // 8) * 8
    L.ds("Halo", dict(names=names, formats=fmts, offsets=offs, itemsize=size), (c["nhalo"],)).ds("IDs", "i8", (c["npart"],))
    return L, {H_ + "num_halos": "nhalo", H_ + "num_particles": "npart", H_ + "format_revision": "rev"}


def velociraptor(c, k):
    H_ = "Header/"
    L = Lay().at(H_ + "ThisTask", "i4").at(H_ + "NProcs", "i4").at(H_ + "ng", "u8").at(H_ + "ngtot", "u8").at(H_ + "hsize", "i8")
    for i in range(c["hs"]):
        L.at(H_ + "entry%03d" % i, "S40")
    fl = [(n, "<u8") for n in "haloid ibound hostid numsubs num".split()] + [("stype", "<u4")]
    if k.get("ikeepfof"):
        fl += [("directhostid", "<u8"), ("hostfofid", "<u8")]
    fl += [("gMvir", "<f8")] + [(n, "<f8", (3,)) for n in "gcm gpos gcmvel gvel".split()]
    fl += [(n, "<f8") for n in ("gmass gMFOF gM200m gM200c gMvir_again Efrac gRvir gsize gR200m gR200c gRvir_again "
                                "gRhalfmass gRmaxvel gmaxvel gsigma_v").split()]
    fl += [("gveldisp", "<f8", (3, 3)), ("glambda_B", "<f8"), ("gJ", "<f8", (3,)), ("gq", "<f8"), ("gs", "<f8"),
           ("geigvec", "<f8", (3, 3)), ("cNFW", "<f8"), ("Krot", "<f8"), ("T", "<f8"), ("Pot", "<f8"), ("RV_sigma_v", "<f8"),
           ("RV_veldisp", "<f8", (3, 3)), ("RV_lambda_B", "<f8"), ("RV_J", "<f8", (3,)), ("RV_q", "<f8"), ("RV_s", "<f8"),
           ("RV_eigvec", "<f8", (3, 3))]
    L.ds("Halo", fl, (c["ng"],))
    return L, {H_ + "ng": "ng", H_ + "hsize": "hs"}


FM = "virgo.formats."
SM = "virgo.sims."


class Layout(H):
    mpi = False
    needs_files = True
    lay = None
    modname = None
    clsname = None
    kw = {}
    end = "<"
    counts = {}             # name -> number of choices (or a tuple of choices)
    nf = None               # block holding the number of files
    sub = None              # nested call through sims (module)

    def inputs(self, v):
        c = {}
        for n, k in sorted(self.counts.items()):
            opts = tuple(k) if isinstance(k, tuple) else tuple(range(k))
            c[n] = opts[v.choice("c_" + n, len(opts))]
        if "h0" in c:
            c["h1"] = c["h0"] + c["nh"] - 1
        L, hdr = globals()[self.lay](c, self.kw)
        d = []
        for kind, path, dt, shape in L.b:
            if kind in ("mark", "gap"):
                d.append(None)
                continue
            dt = np.dtype(dt)
            n = int(np.prod(shape, dtype=int))
            if path in hdr:
                s = hdr[path]
                if isinstance(s, tuple):
                    x = bvals(v, path, n, dt)
                    x[s[0]] = dt.type(c[s[1]])
                    d.append(x)
                else:
                    d.append([dt.type(c[s])])
            elif path == self.nf:
                x = v.bits(path, 32, "i4")
                v.assume(sand(x >= 1, x <= 65535))
                d.append([x])
            elif dt.names:
                d.append([self.struct(v, "%s.%d" % (path, i), dt) for i in range(n)])
            elif dt.kind == "S":
                d.append([(b"text %d of %s" % (i, path.encode()))[:dt.itemsize] for i in range(n)])
            elif path == "Header/fill":
                d.append([np.uint8(3 * i % 256) for i in range(n)])
            else:
                d.append(bvals(v, path, n, dt))
        return dict(c=c, d=d)

    def struct(self, v, name, dt):
        out = []
        for f in dt.names:
            ft = dt.fields[f][0]
            n = int(np.prod(ft.shape, dtype=int))
            x = bvals(v, "%s.%s" % (name, f), n, ft.base)
            out.append(tuple(x) if ft.shape else x[0])
        return out

    def layout(self, inp):
        return globals()[self.lay](inp["c"], self.kw)[0].b

    def setup_files(self, env, inp):
        parts, rec, out = [], None, []
        b = self.layout(inp)

        def size(x):
            return np.dtype(x[2]).itemsize * int(np.prod(x[3], dtype=int))
        # lengths of the records
        lens, cur = [], None
        for x in b:
            if x[0] == "mark":
                if cur is None:
                    cur = 0
                else:
                    lens.append(cur)
                    cur = None
            elif cur is not None:
                cur += size(x)
        k = 0
        for x, e in zip(b, inp["d"]):
            if x[0] == "mark":
                n = lens[k // 2]
                if self.lay == "mxxl_field" and k < 2:
                    n = 8
                k += 1
                parts.append((self.end + "i4", [np.int32(n)]))
                continue
            dt = np.dtype(x[2])
            if dt.names:
                for row in e:
                    pos = 0
                    for f, y in zip(dt.names, row):
                        ft, off = dt.fields[f][0], dt.fields[f][1]
                        if off > pos:
                            parts.append(b"\xee" * (off - pos))
                        parts.append((ft.base, list(y) if isinstance(y, tuple) else [y]))
                        pos = off + ft.itemsize
                    parts.append(b"\xee" * (dt.itemsize - pos))
            elif dt.kind == "S":
                parts.append(b"".join(y.ljust(dt.itemsize, b"\0") for y in e))
            else:
                parts.append((dt.newbyteorder(self.end) if dt.itemsize > 1 else dt, e))
        env.write_bin("f.bin", parts)

    def rank(self, env, comm, r, inp):
        f = getattr(env.load(self.modname), self.clsname)(env.path("f.bin"), **self.kw)
        res = []
        for kind, path, dt, shape in self.layout(inp):
            if kind == "ds":
                res.append(f[path][...])
            elif kind == "at":
                h, _, t = path.rpartition("/")
                res.append(f[h].attrs[t])
            else:
                res.append(None)
        used = f.all_bytes_used() if not any(x[0] in ("mark", "gap") for x in self.layout(inp)) else True
        return dict(res=res, used=used)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        if not o["used"]:
            chk.fail("the blocks do not tile the file")
        for (kind, path, dt, shape), e, g in zip(self.layout(inp), inp["d"], o["res"]):
            if kind in ("mark", "gap"):
                continue
            dt = np.dtype(dt)
            if is_array(g):
                if shp(g) != shape:
                    chk.fail("%s has shape %s, expected %s" % (path, shp(g), shape))
                gd = np.dtype(g.dtype)
                if dt.names:
                    if gd.names != dt.names or [gd.fields[f][0] for f in gd.names] != [dt.fields[f][0] for f in dt.names]:
                        chk.fail("%s has type %s" % (path, gd))
                elif gd.newbyteorder("=") != dt:
                    chk.fail("%s has type %s, expected %s" % (path, gd, dt))
                got = els(g)
            else:
                if shape != ():
                    chk.fail("%s is not an array" % path)
                got = [g]
            if dt.names:
                for i, row in enumerate(got):
                    row = [row[n] for n in dt.names] if not isinstance(row, tuple) else list(row)
                    for n, x, y in zip(dt.names, row, e[i]):
                        x = els(x) if is_array(x) else list(flatten(x)) if isinstance(x, (tuple, list)) else [x]
                        chk.eqlist(x, list(y) if isinstance(y, tuple) else [y], "%s[%d].%s" % (path, i, n))
            elif dt.kind == "S":
                chk.eqlist(got, [x.rstrip(b"\0") for x in e], path)
            else:
                chk.eqlist(got, e, path)


def flatten(x):
    for y in x:
        if isinstance(y, (tuple, list)):
            yield from flatten(y)
        elif is_array(y):
            yield from els(y)
        else:
            yield y


class BadArg(H):
    """Unsupported sizes of ids and floats are refused."""
    mpi = False
    needs_files = True

    def inputs(self, v):
        return dict(idb=(4, 8, 2, 0, 16)[v.choice("i", 5)], fb=(4, 8, 2, 16)[v.choice("f", 4)])

    def setup_files(self, env, inp):
        env.write_bin("f.bin", [b"\1\0\0\0" + b"\0" * 4096])

    def rank(self, env, comm, r, inp):
        kw = dict(id_bytes=inp["idb"])
        if self.fl:
            kw["float_bytes"] = inp["fb"]
        elif inp["fb"] != 4:
            return None
        try:
            getattr(env.load(self.modname), self.clsname)(env.path("f.bin"), **kw)
        except Exception:
            return True
        return False

    fl = False

    def oracle(self, chk, inp, outs):
        if outs[0] is None:
            return
        bad = inp["idb"] not in (4, 8) or self.fl and inp["fb"] not in (4, 8)
        if bad and not outs[0]:
            chk.fail("unsupported id_bytes/float_bytes accepted: %s" % inp)


class Flags(H):
    """Options which are not implemented are refused."""
    mpi = False
    needs_files = True
    OPTS = [("virgo.formats.subfind_pgadget3", "SubTabFile", "SO_BAR_INFO"),
            ("virgo.formats.subfind_pgadget3", "SubTabFile", "WRITE_SUB_IN_SNAP_FORMAT"),
            ("virgo.sims.millennium2", "SubTabFile", "SO_BAR_INFO"),
            ("virgo.sims.millennium2", "SubTabFile", "WRITE_SUB_IN_SNAP_FORMAT"),
            ("virgo.sims.mxxl", "SubTabFile", "SO_BAR_INFO"),
            ("virgo.sims.mxxl", "SubTabFile", "WRITE_SUB_IN_SNAP_FORMAT"),
            ("virgo.formats.velociraptor", "PropertiesFile", "GASON"),
            ("virgo.formats.velociraptor", "PropertiesFile", "STARON"),
            ("virgo.formats.velociraptor", "PropertiesFile", "BHON"),
            ("virgo.formats.velociraptor", "PropertiesFile", "HIGHRES")]

    def inputs(self, v):
        return dict(k=v.choice("k", len(self.OPTS)))

    def setup_files(self, env, inp):
        env.write_bin("f.bin", [b"\0" * 4096])

    def rank(self, env, comm, r, inp):
        m, c, o = self.OPTS[inp["k"]]
        try:
            getattr(env.load(m), c)(env.path("f.bin"), **{o: True})
        except NotImplementedError:
            return True
        return False

    def oracle(self, chk, inp, outs):
        if not outs[0]:
            chk.fail("%s is not refused by %s.%s" % ((self.OPTS[inp["k"]][2],) + self.OPTS[inp["k"]][:2]))


def cases(tier):
    L = []
    T = tier == "thorough"
    N = 4 if T else 3

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))

    def lay(name, lay, mods, cls, kws, counts, nf=None, ends="<>", w=20):
        for m in mods:
            for end in ends:
                for i, kw in enumerate(kws):
                    add("Layout", "%s-%s-%s-%d" % (name, m.split(".")[-1], end, i), lay=lay, modname=m, clsname=cls, kw=kw,
                        counts=counts, nf=nf, end=end, w=w)
    ids = [{}, dict(id_bytes=4), dict(id_bytes=8)]
    G, S = dict(ng=N, ns=N), dict(nid=N)
    l2 = [FM + "subfind_lgadget2", SM + "millennium"]
    lay("gtab", "group_tab_l2", l2, "GroupTabFile", [{}], dict(ng=N, nm=N), "NTask")
    add_ids = [("GroupIDsFile", "NTask", "gids"), ("SubIDsFile", "NFiles", "sids")]
    for cls, nf, nm in add_ids:
        lay(nm, "ids_l2_" + nf, l2, cls, ids, S, nf)
    lay("stab", "sub_tab_l2", l2, "SubTabFile", ids[:2], G, "NFiles", w=60)
    lay("snap", "snap_l2", l2, "SnapshotFile", [{}], dict(np=N, nh=(1, 2, 3), h0=(0, 5)), w=60)
    k3 = [{}, dict(id_bytes=8, float_bytes=8, SO_VEL_DISPERSIONS=True, SUB_SHAPES=True), dict(float_bytes=8),
          dict(SUB_SHAPES=True), dict(SO_VEL_DISPERSIONS=True)]
    lay("stab", "sub_tab_l3", [FM + "subfind_lgadget3"], "SubTabFile", k3, G, "NTask", w=60)
    lay("stab", "mxxl_sub_tab", [SM + "mxxl"], "SubTabFile",
        [{}, dict(SO_VEL_DISPERSIONS=False, float_bytes=8), dict(id_bytes=4)], G, "NTask", w=60)
    lay("sids", "sub_ids_l3", [FM + "subfind_lgadget3"], "SubIDsFile", ids, S, "NTask")
    lay("gids", "ids_p3", [FM + "subfind_pgadget3"], "GroupIDsFile", ids, S, "NTask")
    lay("sids", "ids_p3", [FM + "subfind_pgadget3"], "SubIDsFile", ids, S, "NTask")
    lay("gtab", "group_tab_p3", [FM + "subfind_pgadget3"], "GroupTabFile", [{}, dict(float_bytes=8, id_bytes=4)], dict(ng=N),
        "NTask")
    lay("stab", "sub_tab_p3", [FM + "subfind_pgadget3", SM + "millennium2"], "SubTabFile",
        [{}, dict(id_bytes=4, float_bytes=8), dict(SO_VEL_DISPERSIONS=True)], G, "NTask", w=60)
    lay("stab", "sub_tab_g4", [FM + "subfind_gadget4", SM + "coco"], "SubTabFile", ids[:2], dict(ng=N, ns=N, dp=3), w=60)
    lay("desc", "sub_desc", [FM + "mpa_trees"], "SubDescFile", [{}], dict(ns=N), ends="<")
    lay("desc", "mxxl_desc", [SM + "mxxl"], "SubDescFile", [{}], dict(ns=N), ends="<")
    lay("field", "mxxl_field", [SM + "mxxl"], "FieldFile", [{}], dict(nn=(1, 2), slabs=(0, 1, 2)))
    lay("aux", "tree_aux", [FM + "mpa_trees"], "TreeAuxFile", ids, dict(snaps=(0, 2), trees=(0, 1, 2), halos=(0, 2), uniq=(0, 2)),
        ends="<", w=60)
    lay("tree", "tree_file", [FM + "mpa_trees"], "TreeFile", [{}, dict(id_bytes=4), dict(SAVE_MASS_TAB=True)],
        dict(trees=N, halos=N), ends="<", w=60)
    lay("rock", "rockstar", [FM + "rockstar"], "HalosFile", [{}, dict(hydro=True)], dict(nhalo=N, npart=(0, 2), rev=(0, 1, 2, 3, 17)),
        ends="<", w=100)
    lay("vel", "velociraptor", [FM + "velociraptor"], "PropertiesFile", [{}, dict(ikeepfof=1), dict(ikeepfof=2)], dict(ng=N, hs=(0, 2, 7)),
        ends="<", w=100)
    for m, cls, fl in ((FM + "subfind_lgadget2", "SubTabFile", False), (FM + "subfind_lgadget2", "GroupIDsFile", False),
                       (FM + "subfind_lgadget2", "SubIDsFile", False), (FM + "subfind_lgadget3", "SubTabFile", True),
                       (FM + "subfind_lgadget3", "SubIDsFile", False), (FM + "subfind_pgadget3", "SubTabFile", True),
                       (FM + "subfind_pgadget3", "GroupTabFile", True), (FM + "subfind_pgadget3", "GroupIDsFile", False),
                       (FM + "subfind_pgadget3", "SubIDsFile", False), (FM + "subfind_gadget4", "SubTabFile", False),
                       (FM + "mpa_trees", "TreeFile", False), (FM + "mpa_trees", "TreeAuxFile", False)):
        add("BadArg", "%s-%s" % (m.split(".")[-1], cls), modname=m, clsname=cls, fl=fl)
    add("Flags", "all")
    return L


ids_l2_NTask = ids_l2("NTask")
ids_l2_NFiles = ids_l2("NFiles")
