"""SWIFT snapshots and SOAP catalogues: data come with the units in the file."""
from .common import *

BOUNDS = ("any multiples of 1/4 between -2 and 2 as exponents of up to 3 of the base units, a and h at a time, any positive "
          "units, scale factor, h and conversion factor; data of up to 4 symbolic elements; metadata at the root or in a group; "
          "datasets in nested groups; both kinds of units")
ASSUMPTIONS = ["unyt and swiftsimio are replaced by a model of their units (coefficient times symbols to symbolic powers), "
               "except when counterexamples and samples are replayed"]

SW = "virgo.formats.swift"
U = (("L", "length", "cm"), ("M", "mass", "g"), ("t", "time", "s"), ("T", "temperature", "K"), ("I", "current", "A"))
DIM = dict(L="length", M="mass", t="time", T="temperature", I="current_mks")
REAL = dict(L=3.08567758e24, M=1.98841e43, t=3.08567758e19, T=1.0, I=1.0)
PHYS = ("Conversion factor to physical CGS (including cosmological corrections)",
        "Conversion factor to CGS (including cosmological corrections)")
PLAIN = "Conversion factor to CGS (not including cosmological corrections)"
COSMO = {"Redshift": 0.25, "Omega_m": 0.3, "Omega_lambda": 0.7, "Omega_b": 0.05, "H0 [internal units]": 70.0, "w_0": -1.0,
         "w_a": 0.0, "w": -1.0, "Omega_r": 0.0, "Omega_k": 0.0, "N_eff": 3.04, "N_nu": 0.0,
         "Critical density [internal units]": 12.0, "T_CMB_0 [K]": 2.7}


class Sw(H):
    mpi = False
    free = ("L", "M", "a")      # exponents which are not zero
    mode = "soap"
    cls = "SwiftSnapshot"
    phys = 0
    code = False                # the file has InternalCodeUnits
    fixed = False               # realistic units
    at = "/"

    def fs(self, v):
        from .. import fakeio
        self._fs = fakeio.FS()
        return self._fs

    def overrides(self):
        from .. import fakeunyt
        self.lib = fakeunyt.Lib()
        return self.lib.modules(self._fs.MODULES["h5py"])

    def inputs(self, v):
        def pos(n):
            return v.real(n, None, 0.01, 100)
        val = {u: REAL[u] if self.fixed else pos("U_" + u) for u, _, _ in U}
        val["a"], val["h"] = (0.5, 0.7) if self.fixed else (pos("a"), pos("h"))
        code = {u: pos("C_" + u) for u, _, _ in U} if self.code else None
        ex = {u: v.int("e" + u, -8, 8) / 4.0 if u in self.free else 0.0 for u in ("L", "M", "t", "T", "I", "a", "h")}
        return dict(val=val, code=code, ex=ex, k=pos("k"), x=ivals(v, "x", 2, "f8"), y=ivals(v, "y", 4, "i4"),
                    const=dict(parsec=pos("pc"), solar_mass=pos("msun"), newton_G=pos("G")))

    def power(self, env, v, e):
        return self.lib.memo.power(v, e) if env.sym else float(v) ** float(e)

    def factor(self, env, inp, which):
        """The conversion factor in the file: k times what the exponents say."""
        c = inp["k"]
        for u in which:
            e = inp["ex"][u]
            if is_sym(e) or e:
                c = c * self.power(env, inp["val"][u], e)
        return c

    def setup_files(self, env, inp):
        h5 = env.mod("h5py")

        def one(x):
            return env.arr([x if is_sym(x) else np.float64(x)], "f8")
        with h5.File(env.path("s.hdf5"), "w") as f:
            g = f if self.at == "/" else f.create_group(self.at)
            c = g.create_group("Cosmology")
            for n, x in COSMO.items():
                c.attrs[n] = one(x)
            c.attrs["Scale-factor"], c.attrs["h"] = one(inp["val"]["a"]), one(inp["val"]["h"])
            p = g.create_group("PhysicalConstants").create_group("CGS")
            for n, x in inp["const"].items():
                p.attrs[n] = one(x)
            for name, vals in (("Units", inp["val"]), ("InternalCodeUnits", inp["code"])):
                if vals:
                    u = g.create_group(name)
                    for s, n, b in U:
                        u.attrs["Unit %s in cgs (U_%s)" % (n, s)] = one(vals[s])
            d = f.create_dataset("SO/200_crit/TotalMass", data=env.arr(inp["x"], "f8"))
            for s, _, _ in U:
                d.attrs["U_%s exponent" % s] = one(inp["ex"][s])
            d.attrs["a-scale exponent"], d.attrs["h-scale exponent"] = one(inp["ex"]["a"]), one(inp["ex"]["h"])
            d.attrs[PHYS[self.phys]] = one(self.factor(env, inp, "LMtTIah"))
            d.attrs[PLAIN] = one(self.factor(env, inp, "LMtTI"))
            d.attrs["Description"] = "the mass"
            e = f.create_dataset("SO/Ids", data=env.arr(inp["y"], "i4", (2, 2)))
            for s, _, _ in U:
                e.attrs["U_%s exponent" % s] = one(0.0)
            for n in ("a-scale exponent", "h-scale exponent"):
                e.attrs[n] = one(0.0)
            e.attrs[PHYS[self.phys]] = e.attrs[PLAIN] = one(1.0)

    def open(self, env):
        p = env.path("s.hdf5")
        if self.cls == "SwiftFile":
            return env.load(SW).SwiftFile(self.mode, self.at, p, "r")
        if self.cls == "SOAPCatalogue":
            return env.load("virgo.formats.soap").SOAPCatalogue(p, "r", mode=self.mode)
        if self.mode == "soap":
            return env.load(SW).SwiftSnapshot(p)
        return env.load(SW).SwiftSnapshot(p, mode=self.mode)

    def info(self, env, u):
        """Value in cgs, powers of the base dimensions and of the named symbols."""
        if env.sym:
            if hasattr(u, "_is_quantity"):
                u = self.lib.Unit(u)
            v, d = u.expand()
            return dict(cgs=v, dims={n: x for n, x in d.items()}, sym=u.symbols())
        import unyt
        import sympy
        u = unyt.Unit(u, registry=u.registry if hasattr(u, "registry") else u.units.registry)
        dims = {}
        names = {str(getattr(unyt.dimensions, n)).strip("()"): n for n in DIM.values()}
        for b, e in u.dimensions.as_powers_dict().items():
            if str(b) != "1":
                dims[names.get(str(b).strip("()"), str(b))] = float(e)
        return dict(cgs=float(u.base_value) * 100.0 ** dims.get("length", 0) * 1000.0 ** dims.get("mass", 0), dims=dims,
                    sym={str(b): float(e) for b, e in u.expr.as_powers_dict().items() if isinstance(b, sympy.Symbol) and str(b) != "dimensionless"})

    def data(self, a):
        """The plain numbers of an array with units."""
        if hasattr(a, "_is_uarray"):
            return a.data
        return np.asarray(a.value) if hasattr(a, "value") else None

    def close(self, chk, a, b, msg, tol=3e-9):
        r = a / b
        chk.that(sand(r <= 1 + tol, r >= 1 - tol), msg)

    def same(self, chk, got, want, msg):
        for n in set(got) | set(want):
            d = got.get(n, 0.0) - want.get(n, 0.0)
            chk.that(sand(d <= 1e-9, d >= -1e-9), "%s: power of %s" % (msg, n))


class Soap(Sw):
    def rank(self, env, comm, r, inp):
        s = self.open(env)
        a = s["SO/200_crit/TotalMass"][...]
        b = s["SO"]["200_crit"]["TotalMass"][1:]
        e = s["SO/Ids"][:, 0]
        return dict(a=self.data(a), b=self.data(b), e=self.data(e), u=self.info(env, a.units), ub=self.info(env, b.units),
                    ue=self.info(env, e.units), want=self.factor(env, inp, "LMtTIah"))

    def oracle(self, chk, inp, outs):
        o = outs[0]
        chk.eqlist(els(o["a"]), inp["x"], "data")
        chk.eqlist(els(o["b"]), inp["x"][1:], "part of the data")
        chk.eqlist(els(o["e"]), inp["y"][::2], "dimensionless data")
        ex, k = inp["ex"], inp["k"]
        near = bool(sand(k <= 1 + 1e-10, k >= 1 - 1e-10))
        for u in (o["u"], o["ub"]):
            self.close(chk, u["cgs"], o["want"], "value of the units differs from the conversion factor")
            self.same(chk, u["dims"], {DIM[s]: ex[s] for s in DIM}, "dimensions")
            if near:
                self.same(chk, u["sym"], dict({"snap_" + n: ex[s] for s, n, _ in U}, a=ex["a"], h=ex["h"]), "units")
        self.close(chk, o["ue"]["cgs"], 1.0, "units of dimensionless data")
        self.same(chk, o["ue"]["dims"], {}, "dimensions of dimensionless data")


class Ssio(Sw):
    mode = "swiftsimio"
    free = ("L", "M", "a")

    def rank(self, env, comm, r, inp):
        s = self.open(env)
        try:
            a = s["SO/200_crit/TotalMass"][...]
        except ValueError:
            return None
        cf = a.cosmo_factor
        if env.sym:
            cf = (cf.expr.e, cf.scale_factor)
        else:
            import swiftsimio
            t = cf.expr.subs(swiftsimio.objects.a, 2) if cf.expr != 1 else 1
            cf = (float(np.log2(float(t))), float(cf.scale_factor))
        return dict(a=self.data(a), u=self.info(env, a.units), want=self.factor(env, inp, "LMtTI"), com=bool(a.comoving), cf=cf)

    def oracle(self, chk, inp, outs):
        o, ex = outs[0], inp["ex"]
        if o is None:
            chk.that(sor(ex["h"] != 0, sand(ex["a"] != 0, ex["a"] != ex["L"])), "units refused")
            return
        chk.that(ex["h"] == 0, "h dependent units accepted")
        if o["com"]:
            chk.that(ex["a"] == ex["L"], "data taken for comoving")
        else:
            chk.that(ex["a"] == 0, "data not taken for comoving")
        chk.eqlist(els(o["a"]), inp["x"], "data")
        self.close(chk, o["u"]["cgs"], o["want"], "value of the units differs from the conversion factor")
        d = {DIM[s]: ex[s] for s in "LMtT"}
        for n, x in (("length", 1.5), ("mass", 0.5), ("time", -2.0)):       # electrostatic current
            d[n] = d[n] + x * ex["I"]
        self.same(chk, o["u"]["dims"], d, "dimensions")
        self.close(chk, o["cf"][1], inp["val"]["a"], "scale factor")
        d = o["cf"][0] - ex["a"]
        chk.that(sand(d <= 1e-9, d >= -1e-9), "power of the scale factor")


class Meta(Sw):
    """Named units, and the behaviour as a mapping."""
    free = ()
    NAMES = ["snap_" + n for _, n, _ in U] + ["a", "h", "swift_mpc", "swift_msun", "newton_G"]

    def rank(self, env, comm, r, inp):
        s = self.open(env)
        names = self.NAMES + (["code_" + n for _, n, _ in U] if self.code else [])
        out = dict(u={n: self.info(env, s.get_unit(n)) for n in names}, a=s.expansion_factor)
        try:
            s.get_unit("code_mass")
            out["nocode"] = False
        except Exception:
            out["nocode"] = True
        so = s["SO"]
        out["cosmo"] = s.cosmology is not None and s["SO/200_crit"].cosmology is s.cosmology
        out["keys"] = sorted(str(k) for k in so), sorted(str(k) for k in so.keys()), len(so)
        out["has"] = ["Ids" in so, "SO/200_crit/TotalMass" in s, "nope" in s, s.get("nope") is None]
        d = so["200_crit"]["TotalMass"]
        out["desc"] = str(d.attrs["Description"])
        out["shape"] = tuple(int(x) for x in d.shape), str(np.dtype(d.dtype)), len(d)
        out["wrapped"] = [hasattr(x[...], "units") for x in (so.get("Ids"), dict(so.items())["Ids"], list(so["200_crit"].values())[0])]
        return out

    def oracle(self, chk, inp, outs):
        o = outs[0]
        val, c = inp["val"], inp["const"]
        want = {"snap_" + n: (val[s], {DIM[s]: 1}) for s, n, _ in U}
        if self.code:
            want.update({"code_" + n: (inp["code"][s], {DIM[s]: 1}) for s, n, _ in U})
        elif not o["nocode"]:
            chk.fail("code_mass is defined")
        want.update(a=(val["a"], {}), h=(val["h"], {}), swift_mpc=(1e6 * c["parsec"], {"length": 1}),
                    swift_msun=(c["solar_mass"], {"mass": 1}), newton_G=(c["newton_G"], dict(length=3, mass=-1, time=-2)))
        for n, (v, d) in want.items():
            self.close(chk, o["u"][n]["cgs"], v, "value of " + n)
            self.same(chk, o["u"][n]["dims"], d, "dimensions of " + n)
        self.close(chk, o["a"], val["a"], "expansion factor")
        if not o["cosmo"]:
            chk.fail("no cosmology")
        if o["keys"] != (["200_crit", "Ids"], ["200_crit", "Ids"], 2):
            chk.fail("members are %s" % (o["keys"],))
        if o["has"] != [True, True, False, True]:
            chk.fail("membership tests gave %s" % o["has"])
        if o["desc"] != "the mass" or o["shape"] != ((2,), "float64", 2) or not all(o["wrapped"]):
            chk.fail("dataset has %s %s %s" % (o["desc"], o["shape"], o["wrapped"]))


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(H_, name, w=5, **k):
        L.append((H_, dict(name=H_ + "-" + name, w=w, **k)))
    for i, f in enumerate(("LMa", "Lah", "tTI", "LtM", "MTh", "ILa", "ath")):
        add("Soap", f, free=tuple(f), w=20, phys=i % 2, cls=("SwiftSnapshot", "SOAPCatalogue")[i // 2 % 2], code=i == 3)
    for f in ("", "LMa", "Mt"):
        add("Soap", "real" + f, free=tuple(f), fixed=True, w=20, cls="SOAPCatalogue")
    add("Soap", "group", free=("M", "a"), cls="SwiftFile", at="SWIFT", w=10)
    for f in ("LMa", "Lah", "tTI", "LtM", "MTh", "La", ""):
        add("Ssio", f, free=tuple(f), w=20, cls="SOAPCatalogue" if f == "tTI" else "SwiftSnapshot")
    add("Ssio", "real", free=("L", "a"), fixed=True, w=10)
    add("Ssio", "group", free=("M",), cls="SwiftFile", at="SWIFT", w=10)
    for m in ("soap", "swiftsimio"):
        add("Meta", m, mode=m, code=m == "soap")
        add("Meta", m + "-SOAP", mode=m, cls="SOAPCatalogue")
        add("Meta", m + "-group", mode=m, cls="SwiftFile", at="SWIFT", code=m != "soap")
    if T:
        for f in ("LMtTIah", "LMtah", "LTIah"):
            add("Soap", "t" + f, free=tuple(f), w=600, limit=10 ** 6)
            add("Ssio", "t" + f, free=tuple(f), w=600, limit=10 ** 6)
    return L
