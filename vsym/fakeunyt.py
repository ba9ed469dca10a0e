"""Stand-in for the parts of unyt and swiftsimio the repository uses.

A unit is a coefficient times powers of named symbols; the powers may be
symbolic.  The value of a symbol to a symbolic power is an unknown positive
number, the same one whenever symbol and power are equal."""
import io
import types

import numpy as np

from . import core, scalars
from .core import z3
from .scalars import SReal, is_sym, rterm

DIMS = ("length", "mass", "time", "temperature", "angle", "current_mks", "luminous_intensity", "logarithmic")
BASE = {"cm": ("length", 1.0), "g": ("mass", 1.0), "s": ("time", 1.0), "K": ("temperature", 1.0), "rad": ("angle", 1.0),
        "A": ("current_mks", 1.0), "m": ("length", 100.0), "kg": ("mass", 1000.0), "km": ("length", 1.0e5)}


class Dim:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "(%s)" % self.name


class Dimensions(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "unyt.dimensions")
        for d in DIMS + ("dimensionless",):
            setattr(self, d, Dim(d))


def num(x):
    """A plain or symbolic number."""
    if hasattr(x, "_is_sarr"):
        x = x._scalar0()
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if is_sym(x):
        return SReal(rterm(x), None)
    if isinstance(x, (int, float, np.generic)):
        return float(x)
    raise TypeError("unsupported number %r" % type(x).__name__)


def isnum(x):
    return is_sym(x) or isinstance(x, (int, float, np.number))


def nonzero(e):
    return bool(e != 0)


class Memo:
    """Values of symbols raised to symbolic powers (per path)."""

    def __init__(self):
        self.d = {}
        self.n = 0

    def power(self, v, e):
        if not is_sym(e):
            if float(e) == int(e):
                r = 1.0
                for _ in range(abs(int(e))):
                    r = r * v
                return r if e >= 0 else 1.0 / r
        else:
            for k in (0, 1):
                if bool(e == k):
                    return v if k else 1.0
        key = z3.simplify(rterm(v)).sexpr()
        for e2, w in self.d.get(key, []):
            if (e is e2) or bool(e == e2):
                return w
        self.n += 1
        w = SReal(z3.Real("pow!%d" % self.n), None)
        core.eng().assume(w.t > 0)
        self.d.setdefault(key, []).append((e, w))
        return w


class Lib:
    """Builds the modules for one symbolic path."""

    def __init__(self):
        lib = self
        self.memo = Memo()
        scalars.POW = lambda v, e: self.memo.power(v if is_sym(v) else float(v), e)
        dims = self.dims = Dimensions()

        class Registry:
            def __init__(self, add_default_symbols=True, lut=None, unit_system=None):
                self.lut = lut if lut is not None else {n: (v, {d: 1.0}) for n, (d, v) in BASE.items()}
                self.unit_system = unit_system

            def __contains__(self, k):
                return k in self.lut

        default = self.default = Registry()

        class Unit:
            __array_ufunc__ = None
            _is_unit = True

            def __new__(cls, expr="", registry=None, **kw):
                if hasattr(expr, "_is_unit") or hasattr(expr, "_is_quantity"):
                    if hasattr(expr, "_is_quantity"):
                        u = expr.units
                        coef = expr.value * u.coef
                    else:
                        u = expr
                        coef = u.coef
                    pw, reg = u.pw, registry or u.registry
                    for s in pw:
                        if s not in reg.lut:
                            raise ValueError("Could not find unit symbol '%s' in the provided symbols." % s)
                    return Unit._mk(coef, pw, reg)
                if isinstance(expr, (str, bytes)):
                    expr = expr.decode() if isinstance(expr, bytes) else expr
                    reg = registry or default
                    return lib.parse(expr.strip(), reg)
                if expr is None:
                    return Unit._mk(1.0, {}, registry or default)
                if isnum(expr):
                    return Unit._mk(expr, {}, registry or default)
                raise core.Inconclusive("unit from %s" % type(expr).__name__)

            @staticmethod
            def _mk(coef, pw, reg):
                u = object.__new__(Unit)
                u.coef, u.pw, u.registry = coef, dict(pw), reg
                return u

            def _pow(self, e):
                e = num(e)
                c = lib.memo.power(self.coef, e) if is_sym(self.coef) or self.coef != 1.0 else 1.0
                return Unit._mk(c, {s: x * e for s, x in self.pw.items()}, self.registry)

            __pow__ = _pow

            def _times(self, o, sign):
                pw = dict(self.pw)
                for s, e in o.pw.items():
                    pw[s] = pw[s] + sign * e if s in pw else sign * e
                reg = self.registry if self.registry is not default else o.registry
                return Unit._mk(self.coef * o.coef if sign > 0 else self.coef / o.coef, pw, reg)

            def __mul__(self, o):
                if hasattr(o, "_is_unit"):
                    return self._times(o, 1)
                if hasattr(o, "_is_quantity"):
                    return Quantity(o.value, self._times(o.units, 1))
                if isnum(o):
                    return Quantity(num(o), self)
                return UArray(o, self)

            __rmul__ = __mul__

            def __truediv__(self, o):
                if hasattr(o, "_is_unit"):
                    return self._times(o, -1)
                if hasattr(o, "_is_quantity"):
                    return Quantity(1.0 / o.value, self._times(o.units, -1))
                return Quantity(1.0 / num(o), self)

            def __rtruediv__(self, o):
                return Quantity(num(o), self._pow(-1.0))

            def expand(self):
                """(value in cgs, powers of the base dimensions)."""
                v, d = self.coef, {}
                for s, e in self.pw.items():
                    val, dm = self.registry.lut[s]
                    v = v * lib.memo.power(val, e)
                    for n, k in dm.items():
                        d[n] = d.get(n, 0.0) + k * e
                return v, d

            def symbols(self):
                return {s: e for s, e in self.pw.items() if nonzero(e)}

            @property
            def base_value(self):
                """In SI units."""
                v, d = self.expand()
                for n, k in (("length", 100.0), ("mass", 1000.0)):
                    if n in d and (is_sym(d[n]) or d[n]):
                        v = v / lib.memo.power(k, d[n])
                return v

            @property
            def is_dimensionless(self):
                return not any(nonzero(x) for x in self.expand()[1].values())

            @property
            def units(self):
                return self

            def get_cgs_equivalent(self):
                d = self.expand()[1]
                return Unit._mk(1.0, {n: d[x] for n, x in CGS if x in d and nonzero(d[x])}, self.registry)

            def __eq__(self, o):
                if not hasattr(o, "_is_unit"):
                    return NotImplemented
                a, b = self.expand(), o.expand()
                return bool(a[0] == b[0]) and not any(nonzero(a[1].get(n, 0.0) - b[1].get(n, 0.0)) for n in {**a[1], **b[1]})

            __hash__ = object.__hash__

        class Quantity:
            __array_ufunc__ = None
            _is_quantity = True

            def __init__(self, value, units=None, registry=None, **kw):
                if hasattr(value, "_is_quantity"):
                    units, value = units or value.units, value.value
                self.value = num(value)
                self.units = Unit(units if units is not None else "", registry=registry)
                self.v = self.d = self.ndview = self.value

            def __mul__(self, o):
                if hasattr(o, "_is_unit"):
                    return Quantity(self.value, self.units._times(o, 1))
                if hasattr(o, "_is_quantity"):
                    return Quantity(self.value * o.value, self.units._times(o.units, 1))
                return Quantity(self.value * num(o), self.units)

            __rmul__ = __mul__

            def __truediv__(self, o):
                if hasattr(o, "_is_unit"):
                    return Quantity(self.value, self.units._times(o, -1))
                if hasattr(o, "_is_quantity"):
                    return Quantity(self.value / o.value, self.units._times(o.units, -1))
                return Quantity(self.value / num(o), self.units)

            def __rtruediv__(self, o):
                return Quantity(num(o) / self.value, self.units._pow(-1.0))

            def __pow__(self, e):
                return Quantity(lib.memo.power(self.value, num(e)), self.units._pow(e))

            def in_cgs(self):
                if self.units.registry is not default and nonzero(self.units.expand()[1].get("current_mks", 0.0)):
                    raise ValueError("no conversion of currents with custom units")
                return Quantity(self.value * self.units.expand()[0], self.units.get_cgs_equivalent())

            def item(self):
                return self.value

            def to_value(self, *a):
                raise core.Inconclusive("to_value")

        class UArray:
            __array_ufunc__ = None
            _is_uarray = True

            def __init__(self, data, units=None, registry=None, **kw):
                self.data = data
                u = Unit(units if units is not None else "", registry=registry)
                self.units = u
                self.kw = kw
                self.value = self.v = self.d = data

            def __getattr__(self, n):
                if n.startswith("_"):
                    raise AttributeError(n)
                return getattr(self.data, n)

        class UnitSystem:
            def __init__(self, name, length_unit, mass_unit, time_unit, temperature_unit="K", angle_unit="rad",
                         current_mks_unit="A", luminous_intensity_unit="cd", logarithmic_unit="Np", registry=None):
                self.name = name
                vals = (length_unit, mass_unit, time_unit, temperature_unit, angle_unit, current_mks_unit)
                self.base_units = {getattr(dims, d): u for d, u in zip(DIMS, vals)}
                self.units_map = self.base_units

            def __getitem__(self, k):
                return self.base_units[getattr(dims, k) if isinstance(k, str) else k]

        def define_unit(symbol, value, tex_repr=None, offset=None, prefixable=False, registry=None):
            reg = registry or default
            if symbol in reg.lut:
                raise RuntimeError("Unit symbol '%s' already exists in the provided registry" % symbol)
            if isinstance(value, tuple):
                value = Quantity(value[0], Unit(value[1], registry=reg))
            elif hasattr(value, "_is_unit"):
                value = Quantity(1.0, value)
            elif not hasattr(value, "_is_quantity"):
                raise RuntimeError("The unit value must be a (value, unit) tuple or a quantity")
            v, d = value.units.expand()
            reg.lut[symbol] = (value.value * v, d)

        u = self.unyt = types.ModuleType("unyt")
        u.dimensions = dims
        u.Unit, u.unyt_quantity, u.unyt_array, u.UnitSystem, u.define_unit = Unit, Quantity, UArray, UnitSystem, define_unit
        u.UnitRegistry = Registry
        u.unit_registry = types.ModuleType("unyt.unit_registry")
        u.unit_registry.UnitRegistry = Registry
        u.array = types.ModuleType("unyt.array")
        u.array.unyt_array, u.array.unyt_quantity = UArray, Quantity
        u.unit_object = types.ModuleType("unyt.unit_object")
        u.unit_object.Unit, u.unit_object.define_unit = Unit, define_unit
        u.unit_systems = types.ModuleType("unyt.unit_systems")
        u.unit_systems.UnitSystem = UnitSystem
        u.dimensionless = Unit._mk(1.0, {}, default)
        for n in BASE:
            setattr(u, n, Unit._mk(1.0, {n: 1.0}, default))
        self.Unit, self.Quantity, self.UArray = Unit, Quantity, UArray
        self.swiftsimio = self._swiftsimio()

    def parse(self, s, reg):
        if s in ("", "dimensionless", "1"):
            return self.Unit._mk(1.0, {}, reg)
        import re
        if re.fullmatch(r"\w+", s):
            if s not in reg.lut:
                raise ValueError("Could not find unit symbol '%s' in the provided symbols." % s)
            return self.Unit._mk(1.0, {s: 1.0}, reg)
        if not re.fullmatch(r"[\w\s*/().+-]+", s):
            raise core.Inconclusive("unit expression " + s)
        r = eval(s, {"__builtins__": {}}, {n: self.Unit._mk(1.0, {n: 1.0}, reg) for n in reg.lut})     # noqa: S307
        return self.Unit(r, registry=reg)

    def _swiftsimio(self):
        lib = self
        m = types.ModuleType("swiftsimio")

        class SWIFTUnits:
            """Units of a file, read from its Units group."""

            def __init__(self, filename, handle=None):
                import h5py                                     # noqa: F401  (replaced below)
                raise core.Inconclusive("no file system")

        class Sym:
            def __init__(self, e=1.0):
                self.e = e

            def __pow__(self, e):
                return Sym(self.e * num(e))

            def __mul__(self, o):
                return Sym(self.e + o.e)

        class cosmo_factor:
            def __init__(self, expr, scale_factor=None):
                self.expr, self.scale_factor = expr, scale_factor

            @classmethod
            def create(cls, scale_factor, exponent):
                return cls(Sym() ** exponent, scale_factor)

        class cosmo_array(lib.UArray):
            def __init__(self, data, units=None, registry=None, comoving=None, cosmo_factor=None, scale_factor=None,
                         scale_exponent=None, **kw):
                lib.UArray.__init__(self, data, units, registry)
                if cosmo_factor is None and scale_exponent is not None:
                    cosmo_factor = m.objects.cosmo_factor(Sym() ** scale_exponent, scale_factor)
                self.comoving, self.cosmo_factor = comoving, cosmo_factor

        def to_astropy(cosmo, units):
            return types.SimpleNamespace(cosmo=dict(cosmo), units=units)
        m.objects = types.ModuleType("swiftsimio.objects")
        m.objects.a, m.objects.cosmo_factor, m.objects.cosmo_array = Sym(), cosmo_factor, cosmo_array
        m.cosmo_array = cosmo_array
        m.reader = types.ModuleType("swiftsimio.reader")
        m.reader.SWIFTUnits = SWIFTUnits
        m.conversions = types.ModuleType("swiftsimio.conversions")
        m.conversions.swift_cosmology_to_astropy = to_astropy
        return m

    def modules(self, h5):
        """The stand-ins, reading files with this h5py."""
        lib = self

        class SWIFTUnits:
            def __init__(self, filename, handle=None):
                with h5.File(filename, "r") as f:
                    a = {k: num(v) for k, v in f["Units"].attrs.items()}
                    f["Cosmology"], f["PhysicalConstants"]
                reg = lib.unyt.UnitRegistry()
                for n, k, b in (("length", "length in cgs (U_L)", "cm"), ("mass", "mass in cgs (U_M)", "g"),
                                ("time", "time in cgs (U_t)", "s"), ("temperature", "temperature in cgs (U_T)", "K"),
                                ("current", "current in cgs (U_I)", "A")):
                    # the current is taken for an electrostatic one
                    d = {BASE[b][0]: 1.0} if b != "A" else dict(length=1.5, mass=0.5, time=-2.0)
                    reg.lut["ssio_" + n] = (a["Unit " + k], d)
                    setattr(self, n, lib.Quantity(1.0, lib.Unit("ssio_" + n, registry=reg)))
        self.swiftsimio.reader.SWIFTUnits = SWIFTUnits
        out = {"unyt": self.unyt, "swiftsimio": self.swiftsimio}
        for m in ("dimensions", "array", "unit_registry", "unit_object", "unit_systems"):
            out["unyt." + m] = getattr(self.unyt, m)
        for m in ("objects", "reader", "conversions"):
            out["swiftsimio." + m] = getattr(self.swiftsimio, m)
        return out


CGS = [("cm", "length"), ("g", "mass"), ("s", "time"), ("K", "temperature"), ("rad", "angle"), ("A", "current_mks")]
