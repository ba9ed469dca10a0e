"""Interpreter of the C helper routines of the Fortran HDF5 wrapper (a small part of C)."""
import os
import re

TOK = re.compile(r"""\s*(?:(?P<num>0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*)|(?P<id>[A-Za-z_]\w*)|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])')|
  (?P<op>\+\+|--|->|<<=|>>=|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^~!<>=?:;,.(){}\[\]]))""", re.X)
TYPES = {"int", "long", "short", "char", "unsigned", "signed", "void", "const", "static", "register", "volatile", "inline", "size_t",
         "ssize_t", "hid_t", "hsize_t", "hssize_t", "herr_t", "htri_t", "haddr_t", "restrict", "__restrict", "__restrict__", "double", "float",
         "int32_t", "int64_t", "uint32_t", "uint64_t", "bool", "_Bool", "intptr_t", "uintptr_t"}
BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    pass


class Local:
    """A variable (or what a pointer to it points to)."""

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Elem:
    def __init__(self, a, i):
        self.a, self.i = a, i

    def get(self):
        return self.a[self.i]

    def set(self, v):
        self.a[self.i] = v


class Unit:
    """All C routines of a directory: name -> (parameter names, body)."""

    def __init__(self, directory, unsupported):
        self.uns = unsupported
        self.routines, self.helpers = {}, {}
        for fn in sorted(os.listdir(directory)):
            if fn.endswith(".c") and fn != "byte_order.c":
                with open(os.path.join(directory, fn), encoding="latin1") as f:
                    s = f.read()
                self.macros = {}
                try:
                    self.file(fn, s)
                except IndexError:
                    unsupported("C source " + fn)

    def file(self, fn, s):
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        s = re.sub(r"//[^\n]*", " ", s).replace("\\\n", " ")
        for m in re.finditer(r"^[ \t]*#[ \t]*(\w+)(.*)$", s, re.M):
            if m[1] == "define":
                d = re.fullmatch(r"\s+(\w+)\s+(\S.*?)\s*", m[2])
                if not d:
                    self.uns("C macro in " + fn)
                self.macros[d[1]] = d[2]
            elif m[1] != "include":
                self.uns("C preprocessor directive %s in %s" % (m[1], fn))
        s = re.sub(r"^[ \t]*#.*$", " ", s, flags=re.M)
        self.t, self.p = self.lex(s), 0
        while self.p < len(self.t):
            self.top()

    def lex(self, s):
        out, i = [], 0
        s = s.rstrip()
        while i < len(s):
            m = TOK.match(s, i)
            if not m:
                self.uns("C text %r" % s[i:i + 20])
            i = m.end()
            k = m.lastgroup
            if k == "id" and m[k] in self.macros:
                out += self.lex(self.macros[m[k]])
            else:
                out.append((k, m[k]))
        return out

    # --- parser
    def nx(self, k=0):
        return self.t[self.p + k][1] if self.p + k < len(self.t) else None

    def take(self, x=None):
        t = self.t[self.p]
        if x is not None and t[1] != x:
            self.uns("C: %r where %r is expected" % (t[1], x))
        self.p += 1
        return t[1]

    def istype(self):
        return self.t[self.p][0] == "id" and (self.nx() in TYPES or self.nx().endswith("_t") and not self.nx().startswith("H5"))

    def types(self):
        while self.istype():
            self.take()
        while self.nx() == "*" or self.nx() in TYPES:
            self.take()

    def top(self):
        if self.nx() == ";":
            self.take()
            return
        if not self.istype():
            self.uns("C declaration %r" % self.nx())
        self.types()
        n = self.take()
        table = self.helpers
        if n == "FC_GLOBAL_" or n == "FC_GLOBAL":
            self.take("(")
            n = self.take().lower()
            self.take(",")
            self.take()
            self.take(")")
            table = self.routines
        self.take("(")
        pars = []
        while self.nx() != ")":
            self.types()
            if self.nx() == ")":
                break
            if self.nx() != ",":
                pars.append(self.take())
                if self.nx() == "[":
                    while self.take() != "]":
                        pass
            if self.nx() == ",":
                self.take()
        self.take(")")
        if self.nx() == ";":
            self.take()
            return
        table[n] = (pars, self.block())

    def block(self):
        self.take("{")
        out = []
        while self.nx() != "}":
            out.append(self.stmt())
        self.take("}")
        return ("block", out)

    def stmt(self):
        x = self.nx()
        if x == "{":
            return self.block()
        if x == ";":
            self.take()
            return ("block", [])
        if x == "if":
            self.take()
            self.take("(")
            c = self.expr()
            self.take(")")
            a, b = self.stmt(), None
            if self.nx() == "else":
                self.take()
                b = self.stmt()
            return ("if", c, a, b)
        if x == "while":
            self.take()
            self.take("(")
            c = self.expr()
            self.take(")")
            return ("for", None, c, None, self.stmt())
        if x == "do":
            self.take()
            b = self.stmt()
            self.take("while")
            self.take("(")
            c = self.expr()
            self.take(")")
            self.take(";")
            return ("do", b, c)
        if x == "for":
            self.take()
            self.take("(")
            i = None
            if self.nx() == ";":
                self.take()
            else:
                i = self.stmt()
            c = None if self.nx() == ";" else self.expr()
            self.take(";")
            n = None if self.nx() == ")" else self.expr()
            self.take(")")
            return ("for", i, c, n, self.stmt())
        if x in ("break", "continue"):
            self.take()
            self.take(";")
            return (x,)
        if x == "return":
            self.take()
            e = None if self.nx() == ";" else self.expr()
            self.take(";")
            return ("return", e)
        if self.istype():
            while self.istype():
                self.take()
            out = []
            while True:
                while self.nx() == "*" or self.nx() in TYPES:
                    self.take()
                n, size, e = self.take(), None, None
                if self.nx() == "[":
                    self.take()
                    size = self.expr()
                    self.take("]")
                if self.nx() == "=":
                    self.take()
                    e = self.assign()
                out.append(("decl", n, size, e))
                if self.nx() != ",":
                    break
                self.take()
            self.take(";")
            return ("block", out)
        e = self.expr()
        self.take(";")
        return ("expr", e)

    def expr(self):
        e = self.assign()
        while self.nx() == ",":
            self.take()
            e = ("comma", e, self.assign())
        return e

    def assign(self):
        e = self.cond()
        o = self.nx()
        if o == "=":
            self.take()
            return ("=", e, self.assign())
        if o in ("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="):
            self.take()
            return ("=", e, ("bin", o[0], e, self.assign()))
        return e

    def cond(self):
        c = self.binary(0)
        if self.nx() == "?":
            self.take()
            a = self.expr()
            self.take(":")
            return ("?", c, a, self.cond())
        return c

    def binary(self, l):
        if l == len(BIN):
            return self.unary()
        e = self.binary(l + 1)
        while self.nx() in BIN[l]:
            o = self.take()
            e = ("bin", o, e, self.binary(l + 1))
        return e

    def unary(self):
        x = self.nx()
        if x in ("!", "-", "+", "~", "*", "&"):
            self.take()
            return ("un", x, self.unary())
        if x in ("++", "--"):
            self.take()
            e = self.unary()
            return ("=", e, ("bin", x[0], e, ("num", 1)))
        if x == "(":
            self.take()
            if self.istype():
                ptr = False
                while self.nx() != ")":
                    ptr = self.take() == "*" or ptr
                self.take(")")
                return self.unary()       # (identifiers and pointers only)
            e = self.expr()
            self.take(")")
            return self.postfix(e)
        return self.postfix(None)

    def postfix(self, e):
        if e is None:
            k, x = self.t[self.p]
            self.p += 1
            if k == "num":
                e = ("num", int(x.rstrip("uUlL"), 0))
            elif k == "str":
                e = ("str", x)
                while self.t[self.p][0] == "str":
                    self.p += 1
            elif k == "id":
                if x == "sizeof":
                    self.uns("C sizeof")
                e = ("name", x)
            else:
                self.uns("C expression at %r" % x)
        while True:
            x = self.nx()
            if x == "(" and e[0] == "name":
                self.take()
                a = []
                while self.nx() != ")":
                    a.append(self.assign())
                    if self.nx() == ",":
                        self.take()
                self.take(")")
                e = ("call", e[1], a)
            elif x == "[":
                self.take()
                e = ("idx", e, self.expr())
                self.take("]")
            elif x in ("++", "--"):
                self.take()
                e = ("post", x[0], e)
            else:
                return e

    # --- execution
    def call(self, hdf, name, vals):
        pars, body = self.routines[name]
        if len(pars) != len(vals):
            self.uns("C routine %s called with %d arguments" % (name, len(vals)))
        self.run(hdf, pars, body, vals)

    def run(self, hdf, pars, body, vals):
        fr = {n: Local(v) for n, v in zip(pars, vals)}
        try:
            self.ex(body, fr, hdf)
        except Ret as r:
            return r.args[0]

    def ex(self, s, fr, h):
        k = s[0]
        if k == "block":
            for x in s[1]:
                self.ex(x, fr, h)
        elif k == "expr":
            self.ev(s[1], fr, h)
        elif k == "decl":
            if s[2] is not None:
                if s[3] is not None:
                    self.uns("C array initialiser")
                fr[s[1]] = Local([0] * int(self.ev(s[2], fr, h)))
            else:
                fr[s[1]] = Local(0 if s[3] is None else self.ev(s[3], fr, h))
        elif k == "if":
            if bool(self.ev(s[1], fr, h)):
                self.ex(s[2], fr, h)
            elif s[3] is not None:
                self.ex(s[3], fr, h)
        elif k == "for":
            if s[1] is not None:
                self.ex(s[1], fr, h)
            n = 0
            while s[2] is None or bool(self.ev(s[2], fr, h)):
                n += 1
                if n > 1000:
                    self.uns("C loop")
                try:
                    self.ex(s[4], fr, h)
                except Brk:
                    break
                except Cont:
                    pass
                if s[3] is not None:
                    self.ev(s[3], fr, h)
        elif k == "do":
            n = 0
            while True:
                n += 1
                if n > 1000:
                    self.uns("C loop")
                try:
                    self.ex(s[1], fr, h)
                except Brk:
                    break
                except Cont:
                    pass
                if not bool(self.ev(s[2], fr, h)):
                    break
        elif k == "break":
            raise Brk
        elif k == "continue":
            raise Cont
        else:
            raise Ret(None if s[1] is None else self.ev(s[1], fr, h))

    def ref(self, e, fr, h):
        if e[0] == "name" and e[1] in fr:
            return fr[e[1]]
        if e[0] == "un" and e[1] == "*":
            p = self.ev(e[2], fr, h)
            if isinstance(p, list):
                return Elem(p, 0)
            if not hasattr(p, "set"):
                self.uns("C pointer")
            return p
        if e[0] == "idx":
            p, i = self.ev(e[1], fr, h), self.ev(e[2], fr, h)
            if isinstance(p, list):
                i = int(i)
                if not 0 <= i < len(p):
                    self.uns("C index")
                return Elem(p, i)
            if hasattr(p, "set") and not (i != 0):
                return p
        self.uns("C reference to %r" % (e[1],))

    def ev(self, e, fr, h):
        k = e[0]
        if k in ("num", "str"):
            return e[1]
        if k == "name":
            if e[1] in fr:
                return fr[e[1]].get()
            if e[1] == "NULL":
                return None
            if e[1] in ("true", "false"):
                return int(e[1] == "true")
            if e[1].startswith("H5"):
                return e[1]
            self.uns("C name " + e[1])
        if k == "comma":
            self.ev(e[1], fr, h)
            return self.ev(e[2], fr, h)
        if k == "=":
            v = self.ev(e[2], fr, h)
            self.ref(e[1], fr, h).set(v)
            return v
        if k == "post":
            r = self.ref(e[2], fr, h)
            v = r.get()
            r.set(v + 1 if e[1] == "+" else v - 1)
            return v
        if k == "?":
            return self.ev(e[2] if bool(self.ev(e[1], fr, h)) else e[3], fr, h)
        if k == "idx":
            return self.ref(e, fr, h).get()
        if k == "un":
            if e[1] == "*":
                return self.ref(e, fr, h).get()
            if e[1] == "&":
                r = self.ref(e[2], fr, h)
                return r.get() if isinstance(r, Local) and isinstance(r.get(), list) else r
            v = self.ev(e[2], fr, h)
            if e[1] == "!":
                return not bool(v)
            if v is None or isinstance(v, str):
                self.uns("C arithmetic")
            return {"-": lambda: -v, "+": lambda: v, "~": lambda: ~v}[e[1]]()
        if k == "bin":
            o = e[1]
            if o in ("&&", "||"):
                a = bool(self.ev(e[2], fr, h))
                return bool(self.ev(e[3], fr, h)) if a == (o == "&&") else a
            a, b = self.ev(e[2], fr, h), self.ev(e[3], fr, h)
            if o in ("==", "!="):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    z = lambda x: x is None or isinstance(x, int) and x == 0
                    r = z(a) and z(b) if z(a) or z(b) else a == b if type(a) is type(b) else False
                    return r if o == "==" else not r
                return a == b if o == "==" else a != b
            if any(x is None or isinstance(x, (str, list)) or hasattr(x, "set") for x in (a, b)):
                self.uns("C arithmetic with pointers or constants of the library")
            if o in ("/", "%"):
                self.uns("C division")
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: a < b, ">": lambda: a > b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                    "<<": lambda: a << b, ">>": lambda: a >> b}[o]()
        if k == "call":
            if e[1] in ("printf", "fprintf", "fflush", "puts", "perror"):
                for x in e[2]:
                    if x[0] != "name" or x[1] in fr:
                        self.ev(x, fr, h)
                return 0
            a = [self.ev(x, fr, h) for x in e[2]]
            if e[1] in self.helpers:
                pars, body = self.helpers[e[1]]
                return self.run(h, pars, body, a)
            return h.c_call(e[1], a)
        self.uns("C expression " + k)
