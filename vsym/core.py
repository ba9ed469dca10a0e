"""Path-exploring symbolic execution engine (DFS by re-execution, incremental z3).

One Engine explores one harness case.  The program under test is ordinary
Python running on symbolic values (scalars.py, sarr.py, farr.py); whenever it
branches on a symbolic condition, Engine.decide() asks z3 which sides are
feasible under the current path condition and forks.
"""
import sys
import time

_Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_add = _Z3DIR not in sys.path
if _add:
    sys.path.append(_Z3DIR)
import z3  # noqa: E402
if _add:        # the other packages there are not for the real code
    sys.path.remove(_Z3DIR)


_TRUE, _FALSE = z3.BoolVal(True), z3.BoolVal(False)


class PathAbort(BaseException):
    """The current path is infeasible / not wanted; drop it silently."""


class Inconclusive(BaseException):
    """The engine cannot decide (solver unknown, unsupported operation)."""


def standin(real, what=None):
    """__getattr__ of a class that stands in for `real`: what the real class has and the stand-in lacks cannot be
    followed symbolically (the case falls back to concrete runs); what neither has is an ordinary AttributeError."""
    def __getattr__(self, name):
        if not name.startswith("_") and hasattr(real, name):
            raise Inconclusive("%s.%s is not modelled" % (what or real.__name__, name))
        raise AttributeError("%r object has no attribute %r" % (what or getattr(real, "__name__", "?"), name))
    return __getattr__


class Found(BaseException):
    """A counterexample has been found on the current path."""

    def __init__(self, msg, values):
        super().__init__(msg)
        self.msg = msg
        self.values = values


class _Rec:
    __slots__ = ("value", "other", "pushed", "key")

    def __init__(self, value, other, pushed, key=None):
        self.key = key
        self.value = value
        self.other = other      # negated literal still to be explored, or None
        self.pushed = pushed


class Engine:
    def __init__(self, timeout_ms=60000, max_concretize=40):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.recs = []
        self.pos = 0
        self.model = None
        self.vars = {}           # name -> (term, kind)
        self.max_concretize = max_concretize
        self.stats = dict(paths=0, aborted=0, decisions=0, queries=0,
                          solver_s=0.0, checks=0, concretized=0, truncated=0,
                          max_depth=0)
        self.notes = set()
        self.base = []
        self.deadline = None
        self.uninit_ctr = 0
        self.known = {}          # AST id -> (record index, value, term)
        self.watch = None
        self.busy = False        # inside the solver
        self.lits = []           # (record index, Bool constant, its value)
        self.nbool = 0

    # -- solver --------------------------------------------------------
    def _check(self, *extra):
        t0 = time.perf_counter()
        self.busy = True
        r = self.solver.check(*extra)
        self.busy = False
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t0
        if r == z3.unknown:
            raise Inconclusive("z3 unknown: %s" % self.solver.reason_unknown())
        return r == z3.sat

    def _get_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    # -- variables -----------------------------------------------------
    def new_var(self, name, kind):
        if name in self.vars:
            return self.vars[name][0]
        t = {"int": z3.Int, "bool": z3.Bool, "real": z3.Real}[kind](name)
        self.vars[name] = (t, kind)
        if kind == "bool":
            self.nbool += 1
        return t

    def reduce(self, term):
        """term with the Boolean inputs which the path has already decided
        replaced by their values (only a simplification)."""
        if self.lits:
            term = z3.substitute(term, *[(l[1], l[2]) for l in self.lits])
        return z3.simplify(term)

    # -- branching -----------------------------------------------------
    def decide(self, term):
        if term is True or term is False:
            return term
        flip = False
        while z3.is_not(term):
            term = term.arg(0)
            flip = not flip
        key = term.get_id()
        k = self.known.get(key)
        if k is not None and k[0] < self.pos:
            return k[1] != flip
        self.stats["decisions"] += 1
        if self.pos < len(self.recs):
            r = self.recs[self.pos]
            self.pos += 1
            return r.value != flip
        if term.eq(_TRUE) or term.eq(_FALSE):
            v = term.eq(_TRUE)
            return v != flip
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time limit")
        orig = term
        if self.nbool:
            term = self.reduce(term)
            if z3.is_true(term) or z3.is_false(term):
                v = z3.is_true(term)
                self.recs.append(_Rec(v, None, False, key))
                self.known[key] = (self.pos, v, orig)
                self.pos += 1
                return v != flip
        m = self._get_model()
        v = z3.is_true(m.eval(term, model_completion=True))
        neg = z3.Not(term)
        lit, other = (term, neg) if v else (neg, term)
        if self._check(other):
            self.solver.push()
            self.solver.add(lit)
            self.recs.append(_Rec(v, other, True, key))
        else:
            self.recs.append(_Rec(v, None, False, key))
        self.known[key] = (self.pos, v, orig)
        if self.nbool:
            self.note_literal(self.pos, lit)
        self.pos += 1
        return v != flip

    def note_literal(self, pos, lit):
        v = True
        while z3.is_not(lit):
            lit = lit.arg(0)
            v = not v
        if z3.is_const(lit) and lit.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            self.lits.append((pos, lit, _TRUE if v else _FALSE))

    def must(self, term):
        """True if term holds on every value of the current path (no fork)."""
        if term is True or z3.is_true(term):
            return True
        if term is False or z3.is_false(term):
            return False
        # recorded so that re-execution is deterministic and cheap
        if self.pos < len(self.recs):
            r = self.recs[self.pos]
            self.pos += 1
            return r.value
        m = self._get_model()
        if not z3.is_true(m.eval(term, model_completion=True)):
            v = False
        else:
            v = not self._check(z3.Not(term))
        self.recs.append(_Rec(v, None, False))
        self.pos += 1
        return v

    def assume(self, term):
        if hasattr(term, "t"):
            term = term.t
        if term is True or term is None or (not isinstance(term, bool) and z3.is_true(term)):
            return
        if term is False or z3.is_false(term):
            raise PathAbort()
        if self.pos < len(self.recs):
            r = self.recs[self.pos]
            self.pos += 1
            if not r.value:
                raise PathAbort()
            return
        self.solver.push()
        self.solver.add(term)
        if self.model is not None and not z3.is_true(
                self.model.eval(term, model_completion=True)):
            self.model = None
        ok = True
        if self.model is None:
            ok = self._check()
            if ok:
                self.model = self.solver.model()
        self.recs.append(_Rec(ok, None, True))
        self.pos += 1
        if not ok:
            raise PathAbort()

    def concretize(self, term):
        """Fork over every feasible value of an integer term."""
        self.stats["concretized"] += 1
        for k in range(self.max_concretize):
            if self.pos < len(self.recs):
                v = self.recs[self.pos].value
                # value records are stored as ("v", value)
                assert isinstance(v, tuple)
                self.pos += 1
            else:
                m = self._get_model()
                val = m.eval(term, model_completion=True).as_long()
                self.recs.append(_Rec(("v", val), None, False))
                self.pos += 1
                v = ("v", val)
            if self.decide(term == v[1]):
                return v[1]
        self.stats["truncated"] += 1
        self.notes.add("concretisation of an integer with more than %d values "
                       "was truncated (under-approximation)" % self.max_concretize)
        raise PathAbort()

    def decide_any(self, terms):
        return self.decide(z3.Or(*terms))

    # -- assertions ----------------------------------------------------
    def check(self, term, msg):
        """The property assertion: must hold for all values on this path."""
        self.stats["checks"] += 1
        if hasattr(term, "t"):
            term = term.t
        if isinstance(term, bool) or type(term).__name__ == "bool_":
            if term:
                return
            raise Found(msg, self.values(self._get_model()))
        if z3.is_true(term):
            return
        if self._check(z3.Not(term)):
            raise Found(msg, self.values(self.solver.model()))

    def values(self, model):
        out = {}
        for name, (t, kind) in self.vars.items():
            v = model.eval(t, model_completion=True)
            if kind == "int":
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = bool(z3.is_true(v))
            else:
                fr = v.as_fraction()
                out[name] = [fr.numerator, fr.denominator]
        return out

    def current_values(self):
        return self.values(self._get_model())

    # -- exploration ---------------------------------------------------
    def explore(self, fn, on_path=None, max_paths=None):
        """Run fn() along every feasible path. Returns None or a Found."""
        while True:
            self.pos = 0
            self.uninit_ctr = 0
            if self.deadline is not None and time.time() > self.deadline:
                raise Inconclusive("time limit")
            try:
                fn()
                self.stats["paths"] += 1
                if on_path is not None:
                    on_path(self)
            except PathAbort:
                self.stats["aborted"] += 1
            except Found as f:
                self.stats["paths"] += 1
                return f
            self.stats["max_depth"] = max(self.stats["max_depth"], len(self.recs))
            if max_paths is not None and self.stats["paths"] >= max_paths:
                raise Inconclusive("path limit")
            # backtrack
            if self.pos < len(self.recs):
                raise Inconclusive("re-execution was not deterministic")
            while self.recs:
                r = self.recs.pop()
                if r.pushed:
                    self.solver.pop()
                if r.key is not None:
                    t = self.known.pop(r.key)[2]
                while self.lits and self.lits[-1][0] >= len(self.recs):
                    self.lits.pop()
                if r.other is not None:
                    self.solver.push()
                    self.solver.add(r.other)
                    self.known[r.key] = (len(self.recs), not r.value, t)
                    if self.nbool:
                        self.note_literal(len(self.recs), r.other)
                    self.recs.append(_Rec(not r.value, None, True, r.key))
                    self.model = None
                    break
            else:
                return None


ENG = None


def set_engine(e):
    global ENG
    ENG = e


def eng():
    if ENG is None:
        raise Inconclusive("no engine active")
    return ENG
