"""Symbolic interpreter for the Fortran HDF5 wrapper.

The current sources are passed through the Fortran preprocessor and parsed (the subset of Fortran 90 such code uses);
routines are then executed statement by statement on concrete or symbolic integers and logicals.  A branch on a
symbolic condition forks the path (engine); everything outside the subset is Inconclusive.  Calls to the HDF5 library go
to a stand-in object (fakehdf.py); the C shims are read from their C source.
"""
import hashlib
import os
import re
import subprocess

from . import core, loader
from .core import Inconclusive
from .cshim import Unit as CUnit
from .scalars import SBool, SInt, is_sym, sand, sor, snot, mkint

DIR = "fortran/hdf5_wrapper/src"


class Stop(BaseException):
    """The Fortran program ended itself (stop)."""


class OutOfBounds(BaseException):
    """Array index or string position outside the declared bounds."""


class _Return(BaseException):
    pass


class _Exit(BaseException):
    pass


class _Cycle(BaseException):
    pass


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


def unsupported(what):
    raise Inconclusive("Fortran: " + what)


# ------------------------------------------------------------------ lexer
TOK = re.compile(r"""\s*(?:
    (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
  | (?P<num>(?:\d+\.(?![a-z]+\.)\d*|\d+(?=[ed][+-]?\d)|\.\d+)(?:[ed][+-]?\d+)?(?:_\w+)?|\d+(?:_\w+)?)
  | (?P<dot>\.(?:eq|ne|lt|le|gt|ge|and|or|not|true|false|eqv|neqv)\.)
  | (?P<name>[a-z_$]\w*)
  | (?P<op>\*\*|//|==|/=|<=|>=|=>|::|\(/|/\)|[-+*/(),=:%<>\[\]])
)""", re.X)


def lex(s):
    out, p = [], 0
    s = s.rstrip()
    while p < len(s):
        m = TOK.match(s, p)
        if not m or m.end() == p:
            unsupported("text %r" % s[p:p + 40])
        k = m.lastgroup
        t = m.group(k)
        if k == "str":
            t = t[1:-1].replace(t[0] * 2, t[0])
        out.append((k, t))
        p = m.end()
    return out


def split_strings(line):
    """Parts (is_string, text) of a line."""
    return [(x[:1] in "'\"", x) for x in re.split(r"""('(?:[^']|'')*'|"(?:[^"]|"")*")""", line) if x]


def strip_line(line):
    """Lower case, comment removed; quoted text kept."""
    out = ""
    for q, t in split_strings(line):
        if q:
            out += t
        else:
            i = t.find("!")
            if i >= 0:
                return out + t[:i].lower()
            out += t.lower()
    return out


def logical_lines(text):
    """(file, line, statement) of preprocessed text with line markers."""
    out = []
    fn, ln = "?", 0
    buf, start, cont = "", None, False
    for raw in text.split("\n"):
        m = re.match(r'#\s*(?:line\s+)?(\d+)\s+"([^"]*)"', raw)
        if m:
            ln = int(m[1]) - 1
            fn = m[2]
            continue
        ln += 1
        if raw.startswith("#"):
            continue
        s = strip_line(raw).strip()
        if not s:
            continue
        if cont:
            if s.startswith("&"):
                s = s[1:]
            else:
                s = " " + s
        else:
            buf, start = "", (fn, ln)
        cont = s.endswith("&")
        buf += s[:-1] if cont else s
        if not cont:
            cur = ""
            for q, t in split_strings(buf):
                if q:
                    cur += t
                else:
                    ps = t.split(";")
                    for x in ps[:-1]:
                        if (cur + x).strip():
                            out.append((start[0], start[1], (cur + x).strip()))
                        cur = ""
                    cur += ps[-1]
            if cur.strip():
                out.append((start[0], start[1], cur.strip()))
    return out


# ------------------------------------------------------------- expressions
class P:
    """Expression parser over a token list."""
    LEVELS = [(".eqv.", ".neqv."), (".or.",), (".and.",)]
    CMP = {"==": ".eq.", "/=": ".ne.", "<": ".lt.", "<=": ".le.", ">": ".gt.", ">=": ".ge."}

    def __init__(self, toks):
        self.t = toks
        self.p = 0

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else ("end", "")

    def take(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            unsupported("syntax: expected %r at %r" % (v, self.t[max(0, self.p - 3):self.p + 3]))
        self.p += 1
        return t

    def at(self, *vs):
        k, v = self.peek()
        return k in ("op", "dot") and v in vs

    def expr(self, lev=0):
        if lev < 3:
            a = self.expr(lev + 1)
            while self.at(*self.LEVELS[lev]):
                o = self.take()[1]
                a = ("bin", o, a, self.expr(lev + 1))
            return a
        if lev == 3:
            if self.at(".not."):
                self.take()
                return ("un", ".not.", self.expr(3))
            a = self.expr(4)
            while self.at(".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge.", *self.CMP):
                o = self.take()[1]
                a = ("bin", self.CMP.get(o, o), a, self.expr(4))
            return a
        if lev == 4:
            a = self.expr(5)
            while self.at("//"):
                self.take()
                a = ("bin", "//", a, self.expr(5))
            return a
        if lev == 5:
            if self.at("-", "+"):
                o = self.take()[1]
                a = ("un", o, self.expr(6))
            else:
                a = self.expr(6)
            while self.at("+", "-"):
                o = self.take()[1]
                a = ("bin", o, a, self.expr(6))
            return a
        if lev == 6:
            a = self.expr(7)
            while self.at("*", "/"):
                o = self.take()[1]
                a = ("bin", o, a, self.expr(7))
            return a
        a = self.primary()
        if self.at("**"):
            self.take()
            a = ("bin", "**", a, self.expr(7) if not self.at("-") else self.expr(5))
        return a

    def primary(self):
        k, v = self.take()
        if k == "num":
            b = v.split("_")[0]
            if re.fullmatch(r"\d+", b):
                return ("num", int(b))
            return ("num", float(b.replace("d", "e")))
        if k == "str":
            return ("str", v)
        if k == "dot" and v in (".true.", ".false."):
            return ("log", v == ".true.")
        if k == "op" and v == "(":
            a = self.expr()
            self.take(")")
            return ("paren", a)
        if k == "op" and v in ("(/", "["):
            end = "/)" if v == "(/" else "]"
            xs = []
            for j in range(self.p, len(self.t)):
                if self.t[j] == ("op", end) or self.t[j] == ("op", ","):
                    break
                if self.t[j] == ("op", "::"):
                    self.p = j + 1
                    break
            while not self.at(end):
                q = self.p
                x = self.implied() if self.at("(") else None
                if x is None:
                    self.p = q
                    x = self.expr()
                xs.append(x)
                if self.at(","):
                    self.take()
            self.take(end)
            return ("arr", xs)
        if k == "name":
            a = ("name", v)
            while self.at("("):
                self.take()
                a = ("ref", a, self.args(")"))
            if self.at("%"):
                unsupported("derived types")
            return a
        unsupported("syntax at %r" % (v,))

    def implied(self):
        """(x, ..., i = lo, hi [, step]) in an array constructor."""
        self.take("(")
        d, j = 1, self.p
        eq = None
        while j < len(self.t) and d:
            v = self.t[j]
            if v[0] == "op":
                d += v[1] in ("(", "(/", "[")
                d -= v[1] in (")", "/)", "]")
                if v[1] == "=" and d == 1:
                    eq = j
            j += 1
        if eq is None:
            return None
        xs = []
        while self.p < eq - 1:
            xs.append(self.implied() if self.at("(") and self.sub_implied() else self.expr())
            self.take(",")
        var = self.take()[1]
        self.take("=")
        b = [self.expr()]
        while self.at(","):
            self.take()
            b.append(self.expr())
        self.take(")")
        return ("implied", xs, var, b)

    def sub_implied(self):
        q = self.p
        x = self.implied()
        self.p = q
        return x is not None

    def args(self, end):
        out = []
        while not self.at(end):
            kw = None
            if self.peek()[0] == "name" and self.peek(1) == ("op", "="):
                kw = self.take()[1]
                self.take()
            lo = None
            star = self.at("*")
            if not self.at(":", "*"):
                lo = self.expr()
            if self.at(":"):
                self.take()
                hi = st = None
                if not self.at(",", end, ":"):
                    hi = self.expr()
                if self.at(":"):
                    self.take()
                    st = self.expr()
                out.append((kw, ("sec", lo, hi, st)))
            elif star:
                self.take()
                out.append((kw, ("star",)))
            else:
                out.append((kw, lo))
            if self.at(","):
                self.take()
        self.take(end)
        return out

    def done(self):
        return self.p >= len(self.t)


def parse_expr(s):
    p = P(lex(s))
    e = p.expr()
    if not p.done():
        unsupported("text after expression: %r" % s)
    return e


# ------------------------------------------------------------- declarations
TYPES = ("integer", "real", "double", "logical", "character", "complex", "type")


class Decl:
    def __init__(self, name, base, kind, length, dims, attrs, init):
        self.name, self.base, self.kind, self.length = name, base, kind, length
        self.dims, self.attrs, self.init = dims, attrs, init


def parse_decl(toks):
    """Tokens of a type declaration -> list of Decl."""
    p = P(toks)
    base = p.take()[1]
    kind = length = None
    if base == "double":
        p.take("precision")
        base, kind = "real", ("num", 8)
    if p.at("*"):
        p.take()
        if p.at("("):
            p.take()
            if p.at("*"):
                p.take()
                length = ("star",)
            else:
                length = p.expr()
            p.take(")")
        else:
            k = ("num", int(p.take()[1]))
            if base == "character":
                length = k
            else:
                kind = k
    elif p.at("("):
        p.take()
        # (len=*), (kind=hid_t), (hid_t)
        while not p.at(")"):
            kw = None
            if p.peek()[0] == "name" and p.peek(1) == ("op", "="):
                kw = p.take()[1]
                p.take()
            if p.at("*"):
                p.take()
                v = ("star",)
            elif p.at(":"):
                p.take()
                v = ("colon",)
            else:
                v = p.expr()
            if base == "character" and kw != "kind":
                length = v
            else:
                kind = v
            if p.at(","):
                p.take()
        p.take(")")
    attrs, dims = set(), None
    while p.at(","):
        p.take()
        a = p.take()[1]
        if a == "dimension":
            p.take("(")
            dims = [x[1] for x in p.args(")")]
        elif a == "intent":
            p.take("(")
            p.take()
            if not p.at(")"):
                p.take()
            p.take(")")
        else:
            attrs.add(a)
    if p.at("::"):
        p.take()
    out = []
    while not p.done():
        n = p.take()[1]
        d, ln, init = dims, length, None
        if p.at("("):
            p.take()
            d = [x[1] for x in p.args(")")]
        if p.at("*"):
            p.take()
            ln = ("num", int(p.take()[1]))
        if p.at("="):
            p.take()
            init = p.expr()
        out.append(Decl(n, base, kind, ln, d, attrs, init))
        if p.at(","):
            p.take()
    return out


# --------------------------------------------------------------- statements
class Unit:
    def __init__(self, name, args, func=None, result=None):
        self.name, self.args, self.func, self.result = name, args, func, result
        self.lines = []
        self.inner = {}
        self.decls = None
        self.body = None


class Block:
    """Parser of the executable statements of one unit."""

    def __init__(self, lines):
        self.l = lines
        self.p = 0

    def block(self, ends):
        out = []
        while self.p < len(self.l):
            f, n, s = self.l[self.p]
            w = s.replace(" ", "")
            if any(re.match(e, w) for e in ends):
                return out
            self.p += 1
            st = self.statement(s)
            if st is not None:
                out.append((f, n, st))
        if ends:
            unsupported("unterminated block")
        return out

    def statement(self, s):
        m = re.match(r"(\w+)\s*:\s*(?=(do|if|select|block|associate)\b)", s)
        label = None
        if m:
            label = m[1]
            s = s[m.end():]
        if re.match(r"if\s*\(", s):
            i = self.close(s, s.index("("))
            cond = parse_expr(s[s.index("(") + 1:i])
            rest = s[i + 1:].strip()
            if rest == "then":
                return self.ifblock(cond)
            f, n, _ = self.l[self.p - 1]
            return ("if", [(cond, [(f, n, self.statement(rest))])], [])
        m = re.match(r"do\s+while\s*\(", s)
        if m:
            i = self.close(s, m.end() - 1)
            cond = parse_expr(s[m.end():i])
            b = self.block([r"enddo"])
            self.p += 1
            return ("while", cond, b, label)
        if s == "do":
            b = self.block([r"enddo"])
            self.p += 1
            return ("while", ("log", True), b, label)
        m = re.match(r"do\s+(\w+)\s*=\s*(.*)", s)
        if m:
            p = P(lex(m[2]))
            xs = [p.expr()]
            while p.at(","):
                p.take()
                xs.append(p.expr())
            b = self.block([r"enddo"])
            self.p += 1
            return ("do", m[1], xs, b, label)
        m = re.match(r"select\s*case\s*\(", s)
        if m:
            i = self.close(s, m.end() - 1)
            sel = parse_expr(s[m.end():i])
            self.block([r"case[(d]"])
            arms = []
            while True:
                _, _, c = self.l[self.p]
                self.p += 1
                if re.match(r"end\s*select", c):
                    break
                if re.match(r"case\s*default", c):
                    vals = None
                else:
                    j = c.index("(")
                    p = P(lex(c[j + 1:]))
                    vals = [x[1] for x in p.args(")")]
                arms.append((vals, self.block([r"case[(d]", r"endselect"])))
            return ("select", sel, arms)
        m = re.match(r"do\s+concurrent\s*\(", s)
        if m:
            i = self.close(s, m.end() - 1)
            p = P(lex(s[m.end():i] + ")"))
            idx = p.args(")")
            b = self.block([r"enddo"])
            self.p += 1
            for kw, x in reversed(idx):
                if kw is None or x[0] != "sec" or x[3] is not None:
                    unsupported("do concurrent")
                f, n, _ = self.l[self.p - 1]
                b = [(f, n, ("do", kw, [x[1], x[2]], b, None))]
            return b[0][2]
        m = re.match(r"associate\s*\(", s)
        if m:
            i = self.close(s, m.end() - 1)
            pairs = []
            p = P(lex(s[m.end():i].replace("=>", "=") + ")"))
            pairs = p.args(")")
            b = self.block([r"endassociate"])
            self.p += 1
            return ("associate", pairs, b)
        if s == "block":
            d = []
            while re.match(r"(%s)\b" % "|".join(TYPES), self.l[self.p][2]):
                d += parse_decl(lex(self.l[self.p][2]))
                self.p += 1
            b = self.block([r"endblock"])
            self.p += 1
            return ("block", d, b, label)
        m = re.match(r"where\s*\(", s)
        if m:
            i = self.close(s, m.end() - 1)
            mask = parse_expr(s[m.end():i])
            rest = s[i + 1:].strip()
            if rest:
                f, n, _ = self.l[self.p - 1]
                return ("where", [(mask, [(f, n, self.statement(rest))])])
            arms = []
            while True:
                b = self.block([r"elsewhere", r"endwhere"])
                arms.append((mask, b))
                c = self.l[self.p][2]
                self.p += 1
                if c.replace(" ", "").startswith("endwhere"):
                    return ("where", arms)
                mask = parse_expr(c[c.index("("):]) if "(" in c else ("log", True)
        w = s.replace(" ", "")
        if re.match(r"exit(\s+\w+)?$", s):
            return ("exit", s[4:].strip() or None)
        if re.match(r"cycle(\s+\w+)?$", s):
            return ("cycle", s[5:].strip() or None)
        if w == "return":
            return ("return",)
        if re.match(r"(error\s*)?stop\b", s):
            return ("stop",)
        if w == "continue":
            return None
        if re.match(r"write\s*\(|print\s|flush\s*\(|call\s+flush\b", s):
            return ("io",)
        m = re.match(r"call\s+(\w+)\s*(.*)", s)
        if m:
            args = []
            if m[2]:
                p = P(lex(m[2]))
                p.take("(")
                args = p.args(")")
                if not p.done():
                    unsupported("call statement %r" % s)
            return ("call", m[1], args)
        m = re.match(r"(allocate|deallocate)\s*\(", s)
        if m:
            p = P(lex(s[m.end():]))
            return (m[1], p.args(")"))
        p = P(lex(s))
        lhs = p.primary()
        p.take("=")
        rhs = p.expr()
        if not p.done():
            unsupported("statement %r" % s)
        return ("assign", lhs, rhs)

    def ifblock(self, cond):
        arms, els = [], []
        while True:
            b = self.block([r"elseif\(", r"else$", r"endif"])
            arms.append((cond, b))
            _, _, s = self.l[self.p]
            self.p += 1
            w = s.replace(" ", "")
            if w.startswith("elseif("):
                i = self.close(s, s.index("("))
                cond = parse_expr(s[s.index("(") + 1:i])
                continue
            if w == "else":
                els = self.block([r"endif"])
                self.p += 1
            return ("if", arms, els)

    @staticmethod
    def close(s, i):
        """Position of the parenthesis closing the one at i."""
        d, q, j = 0, None, i
        while j < len(s):
            c = s[j]
            if q:
                if c == q:
                    q = None
            elif c in "'\"":
                q = c
            elif c == "(":
                d += 1
            elif c == ")":
                d -= 1
                if d == 0:
                    return j
            j += 1
        unsupported("unbalanced parentheses %r" % s)


PREFIX = r"(?:(?:pure|impure|recursive|elemental|module)\s+)*"
UNIT = re.compile(PREFIX + r"(?:(?P<ty>(?:integer|real|logical|character|double\s+precision)[^:]*?)\s+)?" + PREFIX +
                  r"(?P<k>subroutine|function)\s+(?P<n>\w+)\s*"
                  r"(?:\((?P<a>[^)]*)\))?\s*(?:result\s*\((?P<r>\w+)\))?$")


class Module:
    """The parsed module: specification part, interfaces, units (parsed when first used)."""

    def __init__(self, text):
        self.units, self.interfaces, self.decls = {}, {}, []
        lines = logical_lines(text)
        i = 0
        cur = host = None
        iface = None
        while i < len(lines):
            f, n, s = lines[i]
            i += 1
            w = s.replace(" ", "")
            if cur is None:
                if iface is not None:
                    m = re.match(r"module\s+procedure\s*(?:::)?\s*(.*)", s)
                    if re.match(r"end\s*interface", s):
                        iface = None
                    elif m:
                        self.interfaces[iface] += [x.strip() for x in m[1].split(",")]
                    else:
                        unsupported("interface %r" % s)
                    continue
                m = re.match(r"interface\s+(\w+)", s)
                if m:
                    iface = m[1]
                    self.interfaces.setdefault(iface, [])
                    continue
                m = UNIT.match(s)
                if m and not s.startswith("end"):
                    cur = Unit(m["n"], [x.strip() for x in (m["a"] or "").split(",") if x.strip()],
                               m["k"] == "function", m["r"])
                    cur.ty = m["ty"]
                    continue
                if re.match(r"(%s)\b" % "|".join(TYPES), s) and not s.startswith("end"):
                    self.decls += parse_decl(lex(s))
            else:
                m = UNIT.match(s)
                if s == "contains":
                    host = cur
                elif m and host is cur and not s.startswith("end"):
                    cur = Unit(m["n"], [x.strip() for x in (m["a"] or "").split(",") if x.strip()],
                               m["k"] == "function", m["r"])
                    cur.ty = m["ty"]
                elif re.match(r"end(subroutine|function)", w) or w == "end":
                    if host is not None and host is not cur:
                        host.inner[cur.name] = cur
                        cur = host
                        continue
                    self.units[cur.name] = cur
                    cur = host = None
                else:
                    cur.lines.append((f, n, s))

    def unit(self, name):
        return self.parse(self.units[name])

    def parse(self, u):
        if u.body is None:
            d, k = [], 0
            if u.func and u.ty:
                d += parse_decl(lex(u.ty + " :: " + (u.result or u.name)))
            while k < len(u.lines):
                s = u.lines[k][2]
                w = s.replace(" ", "")
                m = re.match(r"(%s)\b" % "|".join(TYPES), s)
                if m and not re.match(r"\w+\s*=[^=]", s) and not re.match(r"\w+\s*\([^)]*\)\s*=[^=]", s):
                    d += parse_decl(lex(s))
                elif w.startswith("implicit") or re.match(r"(use|external|intrinsic|save)\b", s):
                    pass
                else:
                    break
                k += 1
            b = Block(u.lines[k:])
            u.body = b.block([])
            u.decls = {x.name: x for x in d}
        return u


_MOD = {}


def source_dir():
    return os.path.join(loader.REPO, DIR)


def preprocess():
    d = source_dir()
    r = subprocess.run(["gfortran", "-E", "-cpp", "-I.", "hdf5_wrapper.F90"], cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if r.returncode:
        raise Inconclusive("preprocessor: " + r.stderr.decode()[-300:])
    return r.stdout.decode("latin1")


def module():
    if "m" not in _MOD:
        _MOD["m"] = Module(preprocess())
    return _MOD["m"]


# ------------------------------------------------------------------ C shims
def c_shims():
    """The C helper routines."""
    if "c" not in _MOD:
        _MOD["c"] = CUnit(source_dir(), unsupported)
    return _MOD["c"]


def native_order():
    """Result of byte_order, from its C source."""
    if "bo" not in _MOD:
        import ctypes
        import tempfile
        with tempfile.TemporaryDirectory() as t:
            with open(os.path.join(t, "FC.h"), "w") as f:
                f.write("#define FC_GLOBAL_(a,A) a##_\n")
            so = os.path.join(t, "b.so")
            subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-I" + t, "-o", so,
                            os.path.join(source_dir(), "byte_order.c")], check=True, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            i = ctypes.c_int(-1)
            ctypes.CDLL(so).byte_order_(ctypes.byref(i))
            _MOD["bo"] = i.value
    return _MOD["bo"]


# ------------------------------------------------------------------- values
class Ty:
    """Scalar type: i/r/l/c with kind or length."""
    __slots__ = ("b", "k")

    def __init__(self, b, k):
        self.b, self.k = b, k

    def __eq__(self, o):
        return self.b == o.b and (self.k == o.k)

    def __repr__(self):
        return "%s%s" % (self.b, self.k)


def conv(ty, v):
    """Value as stored in a variable of this type."""
    if v is UNDEF:
        return v
    if ty.b == "c":
        if not isinstance(v, str):
            unsupported("character assignment of %r" % (v,))
        return v[:ty.k].ljust(ty.k)
    if ty.b == "i":
        if isinstance(v, float):
            v = int(v)
        if isinstance(v, (bool, SBool, str)):
            unsupported("integer assignment of %r" % (v,))
        m = 1 << (8 * ty.k - 1)
        if isinstance(v, SInt):
            if (v.lo is None or v.lo < -m or v.hi is None or v.hi >= m) and \
                    not core.eng().must(core.z3.And(v.t >= -m, v.t < m)):
                unsupported("integer overflow")
            return v
        v = int(v)
        return (v + m) % (2 * m) - m
    return v


class Cell:
    """Scalar variable."""
    __slots__ = ("ty", "v", "const")

    def __init__(self, ty, v=UNDEF):
        self.ty, self.v = ty, v

    def get(self):
        if self.v is UNDEF:
            self.v = fresh(self.ty)
        return self.v

    def set(self, v):
        self.v = conv(self.ty, v)


class Deferred(Cell):
    """A character variable of deferred length."""

    def set(self, v):
        self.ty = Ty("c", len(v))
        self.v = v


def fresh(ty):
    """Unconstrained value (variable which has not been set)."""
    e = core.eng()
    e.uninit_ctr += 1
    n = "unset%d" % e.uninit_ctr
    if ty.b == "i":
        m = 1 << (8 * ty.k - 1)
        t = e.new_var(n, "int")
        e.assume(core.z3.And(t >= -m, t < m))
        return SInt(t, -m, m - 1)
    if ty.b == "l":
        return SBool(e.new_var(n, "bool"))
    if ty.b == "c":
        return "\x01" * ty.k
    unsupported("use of an undefined %r" % ty)


class FArr:
    """Array: bounds and flat column-major storage."""

    def __init__(self, ty, lb, n, data=None):
        self.ty, self.lb, self.n = ty, list(lb), list(n)
        t = 1
        for x in self.n:
            t *= x
        self.data = data if data is not None else [UNDEF] * t

    @property
    def rank(self):
        return len(self.n)

    def flat(self, idx):
        o, m = 0, 1
        for i, lb, n in zip(idx, self.lb, self.n):
            if is_sym(i):
                i = int(i)
            if i < lb or i >= lb + n:
                raise OutOfBounds("index %d of an array dimension %d:%d" % (i, lb, lb + n - 1))
            o += (i - lb) * m
            m *= n
        return o

    def getf(self, f):
        if self.data[f] is UNDEF:
            self.data[f] = fresh(self.ty)
        return self.data[f]

    def setf(self, f, v):
        self.data[f] = conv(self.ty, v)


class View:
    """Array section: flat positions of an array."""

    def __init__(self, a, pos, n):
        self.a, self.pos, self.n = a, pos, n
        self.ty = a.ty
        self.lb = [1] * len(n)

    @property
    def rank(self):
        return len(self.n)


class Val:
    """Array value (result of an expression): shape and flat elements."""

    def __init__(self, n, data):
        self.n, self.data = list(n), list(data)

    @property
    def rank(self):
        return len(self.n)


class Elem:
    """Reference to an array element."""

    def __init__(self, a, f):
        self.a, self.f, self.ty = a, f, a.ty

    def get(self):
        return self.a.getf(self.f)

    def set(self, v):
        self.a.setf(self.f, v)


class Substr:
    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi
        self.ty = Ty("c", max(0, hi - lo + 1))

    def get(self):
        return self.base.get()[self.lo - 1:self.hi] if self.hi >= self.lo else ""

    def set(self, v):
        s = self.base.get()
        v = v[:self.ty.k].ljust(self.ty.k)
        self.base.set(s[:self.lo - 1] + v + s[self.lo - 1 + self.ty.k:])


class Missing:
    """Absent optional argument."""


MISSING = Missing()


def isarr(x):
    return isinstance(x, (FArr, View, Val))


def elems(x):
    if isinstance(x, FArr):
        return [x.getf(i) for i in range(len(x.data))]
    if isinstance(x, View):
        return [x.a.getf(p) for p in x.pos]
    return x.data


def truth(x):
    return bool(x)


def concrete(x):
    return int(x) if is_sym(x) else x


CONSTS = {}


# ------------------------------------------------------------- interpreter
class Machine:
    """Executes routines of the module on a stand-in for the HDF5 library."""

    def __init__(self, hdf):
        self.mod = module()
        self.hdf = hdf
        self.glob = {}
        self.depth = 0
        for d in self.mod.decls:
            self.declare(self.glob, d, {}, static=True)

    # --- variables
    def const(self, name):
        return self.hdf.const(name)

    def typeof(self, d, fr):
        if d.base == "character":
            if d.length is None:
                return Ty("c", 1)
            if d.length[0] in ("star", "colon"):
                return Ty("c", None)
            return Ty("c", concrete(self.ev(d.length, fr)))
        b = {"integer": "i", "real": "r", "logical": "l"}.get(d.base)
        if b is None:
            unsupported("type " + d.base)
        k = 4 if d.kind is None else concrete(self.ev(d.kind, fr))
        return Ty(b, k)

    def declare(self, fr, d, actual, static=False):
        ty = self.typeof(d, fr)
        if d.dims is None:
            if ty.b == "c" and ty.k is None and d.name not in actual:
                fr[d.name] = Deferred(ty)
                return
            c = Cell(ty)
            if d.init is not None:
                c.set(self.ev(d.init, fr))
            elif static:
                c.v = {"i": 0, "r": 0.0, "l": False, "c": "\0" * (ty.k or 0)}[ty.b]
            fr[d.name] = c
            return
        lb, n = [], []
        for x in d.dims:
            if x[0] == "sec":
                if x[2] is None:
                    if "allocatable" in d.attrs:
                        fr[d.name] = ("alloc", ty, len(d.dims))
                        return
                    unsupported("array %s without bounds" % d.name)
                lo = concrete(self.ev(x[1], fr)) if x[1] is not None else 1
                lb.append(lo)
                n.append(max(0, concrete(self.ev(x[2], fr)) - lo + 1))
            else:
                lb.append(1)
                n.append(max(0, concrete(self.ev(x, fr))))
        a = FArr(ty, lb, n)
        if static:
            a.data = [{"i": 0, "r": 0.0, "l": False, "c": "\0" * (ty.k or 0)}[ty.b]] * len(a.data)
        if d.init is not None:
            self.store(a, self.ev(d.init, fr))
        fr[d.name] = a

    # --- calls
    @staticmethod
    def inner(name, fr):
        return fr["inner"].get(name) if fr is not None and fr.get("inner") else None

    def resolve(self, name, args, kws):
        """Specific procedure of a generic name, by type and rank of the arguments."""
        if name not in self.mod.interfaces:
            return name
        for s in self.mod.interfaces[name]:
            if s not in self.mod.units:
                unsupported("no procedure %s" % s)
            u = self.mod.unit(s)
            ok = len(args) <= len(u.args)
            bound = dict(zip(u.args, args))
            for k, v in kws.items():
                ok = ok and k in u.args and k not in bound
                bound[k] = v
            for a in u.args:
                d = u.decls.get(a)
                if d is None:
                    ok = False
                    break
                if a not in bound:
                    ok = ok and "optional" in d.attrs
                    continue
                v = bound[a]
                if v is MISSING:
                    continue
                t = self.typeof(d, self.glob)
                if t.b != v.ty.b or (t.b in "ir" and t.k != v.ty.k) or \
                        len(d.dims or []) != (v.rank if isarr(v) else 0):
                    ok = False
                    break
            if ok:
                return s
        raise LookupError("no specific procedure of %s matches" % name)

    def call(self, name, args=(), kws=None, host=None):
        kws = kws or {}
        inner = self.inner(name, host)
        if inner is not None:
            u = self.mod.parse(inner)
        else:
            host = None
            name = self.resolve(name, args, kws)
            u = self.mod.unit(name)
        self.depth += 1
        if self.depth > 50:
            unsupported("recursion")
        loader.FUNCS.add("hdf5_wrapper." + name)
        fr = dict(self.glob if host is None else host)
        if u.inner:
            fr["inner"] = u.inner
        elif host is None:
            fr.pop("inner", None)
        bound = dict(zip(u.args, args))
        bound.update(kws)
        copyback = []
        shaped = []
        for a in u.args:
            d = u.decls.get(a)
            if d is None:
                unsupported("undeclared argument " + a)
            v = bound.get(a, MISSING)
            if v is MISSING:
                if "optional" not in d.attrs:
                    raise LookupError("missing argument %s of %s" % (a, name))
                fr[a] = MISSING
                continue
            if isarr(v):
                if d.dims is None:
                    raise LookupError("array passed as scalar argument %s of %s" % (a, name))
                if isinstance(v, Val):
                    v = FArr(getattr(v, "ty", None) or Ty("i", 4), [1] * len(v.n), v.n, list(v.data))
                elif isinstance(v, View):
                    w = FArr(v.ty, [1] * len(v.n), v.n, [v.a.data[p] for p in v.pos])
                    copyback.append((v, w))
                    v = w
                else:
                    v = v if v.lb == [1] * v.rank else _rebased(v)
                if any(x[0] == "star" for x in d.dims):
                    pass
                elif all(x[0] == "sec" and x[2] is None for x in d.dims):
                    if len(d.dims) != v.rank:
                        raise LookupError("rank of argument %s of %s" % (a, name))
                else:       # explicit shape
                    shaped.append((a, d, v))
            elif d.dims is not None:
                raise LookupError("scalar passed as array argument %s of %s" % (a, name))
            fr[a] = v
        for a, d, v in shaped:
            lb, n = [], []
            for x in d.dims:
                if x[0] == "sec":
                    lb.append(concrete(self.ev(x[1], fr)) if x[1] is not None else 1)
                    n.append(v.n[len(n)] if x[2] is None else max(0, concrete(self.ev(x[2], fr)) - lb[-1] + 1))
                else:
                    lb.append(1)
                    n.append(max(0, concrete(self.ev(x, fr))))
            t = 1
            for x in n:
                t *= x
            if t > len(v.data):
                raise OutOfBounds("argument %s of %d elements, %d passed" % (a, t, len(v.data)))
            b = FArr.__new__(FArr)
            b.ty, b.lb, b.n, b.data = v.ty, lb, n, v.data
            fr[a] = b
        for d in u.decls.values():
            if d.name not in u.args:
                key = (name, d.name)
                if "save" in d.attrs or (d.init is not None and "parameter" not in d.attrs):
                    if key not in self.glob:
                        t = {}
                        self.declare(t, d, {}, static=True)
                        self.glob[key] = t[d.name]
                    fr[d.name] = self.glob[key]
                else:
                    self.declare(fr, d, bound)
        try:
            self.run(u.body, fr)
        except _Return:
            pass
        for v, w in copyback:
            for p, x in zip(v.pos, w.data):
                v.a.data[p] = x
        self.depth -= 1
        if u.func:
            return fr[u.result or u.name].get()

    # --- statements
    def run(self, body, fr):
        cov = loader.COVER
        for f, n, st in body:
            cov.setdefault(f, set()).add(n)
            k = st[0]
            if k == "assign":
                self.assign(st[1], self.ev(st[2], fr), fr)
            elif k == "call":
                self.callst(st[1], st[2], fr)
            elif k == "if":
                for c, b in st[1]:
                    if truth(self.ev(c, fr)):
                        self.run(b, fr)
                        break
                else:
                    self.run(st[2], fr)
            elif k == "do":
                self.do(st, fr)
            elif k == "while":
                nit = 0
                while truth(self.ev(st[1], fr)):
                    nit += 1
                    if nit > 5000:
                        core.eng().check(False, "deadlock: endless loop in the Fortran code")
                    if not self.loop_body(st[2], fr, st[3]):
                        break
            elif k == "select":
                self.select(st, fr)
            elif k == "return":
                raise _Return()
            elif k == "stop":
                raise Stop()
            elif k == "exit":
                raise _Exit(st[1])
            elif k == "cycle":
                raise _Cycle(st[1])
            elif k == "io":
                pass
            elif k in ("allocate", "deallocate"):
                self.alloc(st, fr)
            elif k == "where":
                self.where(st, fr)
            elif k in ("associate", "block"):
                if k == "associate":
                    new = [(n, self.argument(x, fr)) for n, x in st[1]]
                    names = [n for n, _ in new]
                else:
                    names = [d.name for d in st[1]]
                old = {n: fr.get(n) for n in names}
                if k == "associate":
                    fr.update(new)
                else:
                    for d in st[1]:
                        self.declare(fr, d, {})
                try:
                    self.run(st[2], fr)
                except _Exit as x:
                    if k != "block" or x.args[0] is None or x.args[0] != st[3]:
                        raise
                finally:
                    fr.update(old)
            else:
                unsupported(k)

    def where(self, st, fr):
        """(masked assignments, element by element)"""
        done = None
        for mask, b in st[1]:
            m = self.ev(mask, fr)
            for _, _, s in b:
                if s[0] != "assign":
                    unsupported("statement in where")
                r = self.ref(s[1], fr)
                v = self.ev(s[2], fr)
                pos = range(len(r.data)) if isinstance(r, FArr) else r.pos
                a = r if isinstance(r, FArr) else r.a
                vs = elems(v) if isarr(v) else [v] * len(pos)
                ms = elems(m) if isarr(m) else [m] * len(pos)
                if done is None:
                    done = [False] * len(pos)
                if not len(vs) == len(ms) == len(pos) == len(done):
                    raise OutOfBounds("shapes in where")
                for p, x, y, dn in zip(pos, vs, ms, done):
                    if truth(sand(y, snot(dn))):
                        a.setf(p, x)
            if done is None:
                continue
            ms = elems(m) if isarr(m) else [m] * len(done)
            done = [sor(dn, y) for dn, y in zip(done, ms)]

    def loop_body(self, b, fr, label):
        try:
            self.run(b, fr)
        except _Exit as x:
            if x.args[0] not in (None, label):
                raise
            return False
        except _Cycle as x:
            if x.args[0] not in (None, label):
                raise
        return True

    def do(self, st, fr):
        _, var, xs, b, label = st
        lo, hi = self.ev(xs[0], fr), self.ev(xs[1], fr)
        step = concrete(self.ev(xs[2], fr)) if len(xs) > 2 else 1
        c = fr[var]
        i = lo
        nit = 0
        while truth(i <= hi if step > 0 else i >= hi):
            nit += 1
            if nit > 5000:
                unsupported("long loop")
            c.set(i)
            if not self.loop_body(b, fr, label):
                return
            i = i + step
        c.set(i)

    def select(self, st, fr):
        v = self.ev(st[1], fr)
        default = []
        for vals, b in st[2]:
            if vals is None:
                default = b
                continue
            for x in vals:
                if x[0] == "sec":
                    ok = sand(*([] if x[1] is None else [v >= self.ev(x[1], fr)]),
                              *([] if x[2] is None else [v <= self.ev(x[2], fr)]))
                else:
                    ok = self.compare(".eq.", v, self.ev(x, fr))
                if truth(ok):
                    return self.run(b, fr)
        self.run(default, fr)

    def alloc(self, st, fr):
        for kw, x in st[1]:
            if kw is not None:
                continue
            if st[0] == "deallocate":
                a = fr[x[1]]
                fr[x[1]] = ("alloc", a.ty, a.rank)
                continue
            _, nm, args = x
            t = fr[nm[1]]
            lb, n = [], []
            for _, y in args:
                if y[0] == "sec":
                    lb.append(concrete(self.ev(y[1], fr)))
                    n.append(max(0, concrete(self.ev(y[2], fr)) - lb[-1] + 1))
                else:
                    lb.append(1)
                    n.append(max(0, concrete(self.ev(y, fr))))
            fr[nm[1]] = FArr(t[1], lb, n)

    def callst(self, name, args, fr):
        vals = []
        kws = {}
        for kw, x in args:
            v = self.argument(x, fr)
            if kw is None:
                vals.append(v)
            else:
                kws[kw] = v
        if name in self.mod.units or name in self.mod.interfaces or self.inner(name, fr) is not None:
            return self.call(name, vals, kws, fr)
        if name == "byte_order":
            return vals[0].set(native_order())
        if name in c_shims().routines:
            return c_shims().call(self.hdf, name, vals)
        self.hdf.call(name, vals, kws)

    # --- references
    def argument(self, x, fr):
        """Actual argument: a reference where Fortran passes one."""
        if x[0] in ("name", "ref"):
            r = self.ref(x, fr)
            if r is not None:
                return r
        v = self.ev(x, fr)
        if isarr(v):
            if isinstance(v, Val):
                v.ty = self.value_type(v.data[0]) if v.data else Ty("i", 4)
            return v
        t = self.value_type(v)
        return Cell(t, v)

    @staticmethod
    def value_type(v):
        if isinstance(v, (bool, SBool)):
            return Ty("l", 4)
        if isinstance(v, str):
            return Ty("c", len(v))
        if isinstance(v, float):
            return Ty("r", 4)
        return Ty("i", 4)

    def lookup(self, name, fr):
        v = fr.get(name)
        if v is None:
            c = self.const(name)
            if c is None:
                return None
            return Cell(Ty("i", 8), c)
        return v

    def ref(self, x, fr):
        """Variable reference of an expression, or None if it is not one."""
        if x[0] == "name":
            return self.lookup(x[1], fr)
        b = self.ref(x[1], fr) if x[1][0] == "ref" else self.lookup(x[1][1], fr)
        if b is None or b is MISSING:
            return None
        if isinstance(b, tuple):
            unsupported("unallocated array")
        args = [a for _, a in x[2]]
        if not isarr(b):
            if b.ty.b == "c" and len(args) == 1 and args[0][0] == "sec":
                lo = concrete(self.ev(args[0][1], fr)) if args[0][1] is not None else 1
                hi = concrete(self.ev(args[0][2], fr)) if args[0][2] is not None else b.ty.k
                if hi >= lo and (lo < 1 or hi > b.ty.k):
                    raise OutOfBounds("substring %d:%d of %d characters" % (lo, hi, b.ty.k))
                return Substr(b, lo, hi)
            return None
        if isinstance(b, Val):
            return None
        if len(args) != b.rank:
            unsupported("number of subscripts")
        if isinstance(b, View):
            unsupported("section of a section")
        sub, sec = [], False
        shape = []
        for d, a in enumerate(args):
            if a[0] == "sec":
                sec = True
                lo = concrete(self.ev(a[1], fr)) if a[1] is not None else b.lb[d]
                hi = concrete(self.ev(a[2], fr)) if a[2] is not None else b.lb[d] + b.n[d] - 1
                st = concrete(self.ev(a[3], fr)) if a[3] is not None else 1
                r = list(range(lo, hi + (1 if st > 0 else -1), st))
                sub.append(r)
                shape.append(len(r))
            else:
                v = self.ev(a, fr)
                if isarr(v):
                    sec = True
                    r = [concrete(y) for y in elems(v)]
                    sub.append(r)
                    shape.append(len(r))
                else:
                    sub.append([v])
        if not sec:
            return Elem(b, b.flat([s[0] for s in sub]))
        pos = [[]]
        for s in reversed(sub):
            pos = [[i] + p for p in pos for i in s]
        return View(b, [b.flat(p) for p in pos], shape)

    def assign(self, lhs, v, fr):
        r = self.ref(lhs, fr)
        if r is None:
            unsupported("assignment to %r" % (lhs,))
        if isinstance(r, tuple):
            if not isarr(v):
                unsupported("assignment to an unallocated array")
            fr[lhs[1]] = FArr(r[1], [1] * v.rank, v.n, [conv(r[1], y) for y in elems(v)])
            return
        self.store(r, v)

    def store(self, r, v):
        if isinstance(r, FArr):
            if isarr(v):
                vs = list(elems(v))
                if len(vs) != len(r.data):
                    raise OutOfBounds("assignment of %d elements to %d" % (len(vs), len(r.data)))
                r.data[:] = [conv(r.ty, y) for y in vs]
            else:
                r.data[:] = [conv(r.ty, v)] * len(r.data)
        elif isinstance(r, View):
            if isarr(v):
                vs = list(elems(v))
                if len(vs) != len(r.pos):
                    raise OutOfBounds("assignment of %d elements to a section of %d" % (len(vs), len(r.pos)))
            else:
                vs = [v] * len(r.pos)
            for p, y in zip(r.pos, vs):
                r.a.setf(p, y)
        else:
            if isarr(v):
                unsupported("array assigned to a scalar")
            r.set(v)

    # --- expressions
    def ev(self, x, fr):
        k = x[0]
        if k in ("num", "str", "log"):
            return x[1]
        if k == "paren":
            return self.ev(x[1], fr)
        if k == "name":
            r = self.lookup(x[1], fr)
            if r is None:
                unsupported("name " + x[1])
            if r is MISSING:
                unsupported("use of an absent argument " + x[1])
            return r if isarr(r) or isinstance(r, tuple) else r.get()
        if k == "arr":
            out = []
            def put(y):
                if y[0] == "implied":
                    lo, hi = concrete(self.ev(y[3][0], fr)), concrete(self.ev(y[3][1], fr))
                    st = concrete(self.ev(y[3][2], fr)) if len(y[3]) > 2 else 1
                    old = fr.get(y[2])
                    for i in range(lo, hi + (1 if st > 0 else -1), st):
                        fr[y[2]] = Cell(Ty("i", 4), i)
                        for z in y[1]:
                            put(z)
                    fr[y[2]] = old
                    return
                v = self.ev(y, fr)
                out.extend(elems(v) if isarr(v) else [v])
            for y in x[1]:
                put(y)
            return Val([len(out)], out)
        if k == "un":
            v = self.ev(x[2], fr)
            f = {"-": lambda a: -a, "+": lambda a: a, ".not.": snot}[x[1]]
            return Val(v.n, [f(y) for y in elems(v)]) if isarr(v) else f(v)
        if k == "bin":
            return self.binary(x, fr)
        if k == "ref":
            if x[1][0] == "name" and (fr.get(x[1][1]) is None):
                return self.function(x[1][1], x[2], fr)
            r = self.ref(x, fr)
            if r is None:
                unsupported("reference %r" % (x,))
            return r if isarr(r) else r.get()
        unsupported("expression %r" % (x,))

    def binary(self, x, fr):
        o = x[1]
        a = self.ev(x[2], fr)
        # gfortran evaluates .and./.or. left to right and stops early
        if o == ".and." and not isarr(a):
            if a is False:
                return False
            if is_sym(a):
                if not truth(a):
                    return False
            return self.ev(x[3], fr)
        if o == ".or." and not isarr(a):
            if truth(a):
                return True
            return self.ev(x[3], fr)
        b = self.ev(x[3], fr)
        if isarr(a) or isarr(b):
            n = a.n if isarr(a) else b.n
            xs = elems(a) if isarr(a) else [a] * len(elems(b))
            ys = elems(b) if isarr(b) else [b] * len(xs)
            if len(xs) != len(ys):
                raise OutOfBounds("operation on arrays of %d and %d elements" % (len(xs), len(ys)))
            return Val(n, [self.scalar(o, p, q) for p, q in zip(xs, ys)])
        return self.scalar(o, a, b)

    def compare(self, o, a, b):
        if isinstance(a, str):
            n = max(len(a), len(b))
            a, b = a.ljust(n), b.ljust(n)
        return {".eq.": lambda: a == b, ".ne.": lambda: a != b, ".lt.": lambda: a < b, ".le.": lambda: a <= b,
                ".gt.": lambda: a > b, ".ge.": lambda: a >= b}[o]()

    def scalar(self, o, a, b):
        if o in (".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge."):
            return self.compare(o, a, b)
        if o == ".and.":
            return sand(a, b)
        if o == ".or.":
            return sor(a, b)
        if o == ".eqv.":
            return truth(a) == truth(b)
        if o == ".neqv.":
            return truth(a) != truth(b)
        if o == "//":
            return a + b
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/":
            if isinstance(a, float) or isinstance(b, float):
                return a / b
            a, b = concrete(a), concrete(b)
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if o == "**":
            return concrete(a) ** concrete(b)
        unsupported("operator " + o)

    def function(self, name, args, fr):
        if name == "present":
            return fr[args[0][1][1]] is not MISSING
        if name in self.mod.units or name in self.mod.interfaces or self.inner(name, fr) is not None:
            vals = [self.argument(x, fr) for k, x in args if k is None]
            return self.call(name, vals, {k: self.argument(x, fr) for k, x in args if k is not None}, fr)
        pos, kw = [], {}
        if name == "kind":
            r = self.argument(args[0][1], fr)
            return r.ty.k
        if name in ("storage_size", "huge"):
            t = self.argument(args[0][1], fr).ty
            return 8 * t.k if name == "storage_size" else (1 << (8 * t.k - 1)) - 1
        if name in ("len", "size", "ubound", "lbound", "shape", "allocated"):
            r = self.argument(args[0][1], fr)
            rest = [self.ev(x, fr) for _, x in args[1:] if not (_ == "kind")]
            if name == "allocated":
                return not isinstance(r, tuple)
            if name == "len":
                return r.ty.k if not isinstance(r, Val) else len(r.data[0])
            if name == "shape":
                return Val([r.rank], r.n)
            if name == "size" and not rest:
                t = 1
                for y in r.n:
                    t *= y
                return t
            lo = r.lb if not isinstance(r, Val) else [1] * r.rank
            if name == "size":
                return r.n[self.dim(r, rest[0])]
            hs = [p + q - 1 for p, q in zip(lo, r.n)]
            src = lo if name == "lbound" else hs
            return src[self.dim(r, rest[0])] if rest else Val([r.rank], src)
        for k, x in args:
            v = self.ev(x, fr)
            if k is None:
                pos.append(v)
            else:
                kw[k] = v
        f = getattr(self, "f_" + name, None)
        if f is None:
            unsupported("function " + name)
        return f(*pos, **kw)

    @staticmethod
    def dim(r, d):
        d = concrete(d)
        if d < 1 or d > r.rank:
            raise OutOfBounds("dimension %d of an array of rank %d" % (d, r.rank))
        return d - 1

    def elemental(self, f, *xs):
        ns = [x.n for x in xs if isarr(x)]
        if not ns:
            return f(*xs)
        m = max(len(elems(x)) for x in xs if isarr(x))
        cols = [elems(x) if isarr(x) else [x] * m for x in xs]
        return Val(ns[0], [f(*c) for c in zip(*cols)])

    def f_min(self, *xs):
        from .scalars import smin

        def f(*v):
            r = v[0]
            for y in v[1:]:
                r = smin(r, y) if is_sym(r) or is_sym(y) else min(r, y)
            return r
        return self.elemental(f, *xs)

    def f_max(self, *xs):
        from .scalars import smax

        def f(*v):
            r = v[0]
            for y in v[1:]:
                r = smax(r, y) if is_sym(r) or is_sym(y) else max(r, y)
            return r
        return self.elemental(f, *xs)

    def f_int(self, x, kind=None):
        return self.elemental(lambda v: int(v) if isinstance(v, float) else v, x)

    def f_real(self, x, kind=None):
        return x

    f_dble = f_real

    def f_nint(self, x, kind=None):
        return int(round(x)) if isinstance(x, float) else x

    def f_abs(self, x):
        return self.elemental(abs, x)

    def f_modulo(self, a, b):
        return concrete(a) % concrete(b)

    def f_reshape(self, x, n):
        return Val([concrete(y) for y in elems(n)], list(elems(x)))

    def f_findloc(self, x, v, dim=None):
        for i, y in enumerate(elems(x)):
            if truth(self.compare(".eq.", y, v)):
                return i + 1 if dim is not None else Val([1], [i + 1])
        return 0 if dim is not None else Val([1], [0])

    def f_spread(self, x, dim, n):
        if isarr(x):
            unsupported("spread of an array")
        return Val([concrete(n)], [x] * concrete(n))

    def f_mod(self, a, b):
        a, b = concrete(a), concrete(b)
        return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))

    def f_any(self, x):
        return sor(*elems(x)) if elems(x) else False

    def f_all(self, x):
        return sand(*elems(x)) if elems(x) else True

    def f_count(self, x):
        t = 0
        for y in elems(x):
            t += 1 if truth(y) else 0
        return t

    def f_product(self, x):
        t = 1
        for y in elems(x):
            t = t * y
        return t

    def f_sum(self, x):
        t = 0
        for y in elems(x):
            t = t + y
        return t

    def f_maxval(self, x):
        return self.f_max(*elems(x))

    def f_minval(self, x):
        return self.f_min(*elems(x))

    def f_merge(self, a, b, m):
        return self.elemental(lambda p, q, r: p if truth(r) else q, a, b, m)

    def f_pack(self, a, m):
        r = [x for x, y in zip(elems(a), elems(m)) if truth(y)]
        return Val([len(r)], r)

    def f_trim(self, s):
        return s.rstrip(" ")

    def f_adjustl(self, s):
        return s.lstrip(" ").ljust(len(s))

    def f_adjustr(self, s):
        return s.rstrip(" ").rjust(len(s))

    def f_len_trim(self, s):
        return len(s.rstrip(" "))

    def f_index(self, s, sub, back=False):
        return (s.rfind(sub) if truth(back) else s.find(sub)) + 1

    def f_scan(self, s, chars, back=False):
        p = [i + 1 for i, c in enumerate(s) if c in chars]
        return (p[-1] if truth(back) else p[0]) if p else 0

    def f_verify(self, s, chars, back=False):
        p = [i + 1 for i, c in enumerate(s) if c not in chars]
        return (p[-1] if truth(back) else p[0]) if p else 0

    def f_repeat(self, s, n):
        return s * concrete(n)

    def f_achar(self, i):
        return chr(concrete(i))

    f_char = f_achar

    def f_ichar(self, s):
        return ord(s)

    f_iachar = f_ichar


def _rebased(a):
    b = FArr.__new__(FArr)
    b.ty, b.n, b.data = a.ty, a.n, a.data
    b.lb = [1] * len(a.n)
    return b


def source_hash():
    h = hashlib.sha1()
    for fn in sorted(os.listdir(source_dir())):
        with open(os.path.join(source_dir(), fn), "rb") as f:
            h.update(fn.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:16]
