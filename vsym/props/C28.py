"""mpi_errchk: a failure on any rank ends the whole job."""
from .common import *
import contextlib
import io

from ..fakempi import MPIAbort

BOUNDS = ("1-3 ranks, any subset of ranks failing, 10 kinds of exception raised directly, from a nested call or from a nested "
          "decorated function, every argument and return value symbolic")
ASSUMPTIONS = ["MPI_Abort does not return; SystemExit is an ordinary end of the program and not a failure"]


class Odd(Exception):
    def __init__(self):
        pass


KINDS = [ValueError("bad %d{}"), KeyboardInterrupt(), IOError(2, "No such file"), AssertionError(), KeyError("x"), MemoryError(),
         ZeroDivisionError("é"), StopIteration(), Odd(), NotImplementedError("a\nb")]


class Aborted(BaseException):
    pass


class Err(H):
    mpi = True
    P = 1
    nested = 0

    def inputs(self, v):
        return dict(kind=v.choice("kind", len(KINDS)), fails=[v.bool("fails%d" % r) for r in range(self.P)],
                    x=[v.int("x%d" % r, -2**63, 2**63 - 1) for r in range(self.P)])

    def rank(self, env, comm, r, inp):
        deco = env.load("virgo.mpi.errchk").mpi_errchk
        codes = []
        if not env.sym:
            MPI = env.mod("mpi4py.MPI")
            real = MPI.COMM_WORLD

            class World:
                def Abort(self, code=0):
                    codes.append(code)
                    raise Aborted()

                def __getattr__(self, n):
                    return getattr(real, n)
            MPI.COMM_WORLD = World()

        def fail():
            raise KINDS[inp["kind"]]

        def inner(a, b=1, *rest, key=None, **kw):
            if inp["fails"][r]:
                if self.nested == 1:
                    fail()
                raise KINDS[inp["kind"]]
            return [a, b, rest, key, kw]

        def outer(*a, **k):
            return deco(inner)(*a, **k)
        f = deco(outer if self.nested == 2 else inner)
        marker = object()
        out, err = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    x = f(inp["x"][r], r, marker, key=inp["x"][r], other=marker)
                    res = ["returned", x[0], x[1], len(x[2]) == 1 and x[2][0] is marker, x[3],
                           list(x[4]) == ["other"] and x[4]["other"] is marker, None]
                except (Aborted, MPIAbort) as e:
                    res = ["aborted", [e.code] if env.sym else codes]
                except BaseException as e:      # noqa
                    if type(e).__module__.startswith("vsym"):
                        raise
                    res = ["raised", type(e).__name__, codes]
        finally:
            if not env.sym:
                MPI.COMM_WORLD = real
        return res + [err.getvalue()]

    def oracle(self, chk, inp, outs):
        for r, o in enumerate(outs):
            failed = bool(inp["fails"][r])
            if not failed:
                if o[0] != "returned":
                    chk.fail("rank %d: %s without a failure" % (r, o[0]))
                chk.eq(o[1], inp["x"][r], "first argument")
                chk.eq(o[2], r, "second argument")
                chk.eq(o[4], inp["x"][r], "keyword argument")
                if not (o[3] and o[5]):
                    chk.fail("arguments were changed")
                continue
            k = KINDS[inp["kind"]]
            if o[0] != "aborted":
                chk.fail("rank %d: %r did not end the job (%s)" % (r, k, o[:2]))
            if len(o[1]) != 1 or not (isinstance(o[1][0], int) and o[1][0] != 0):
                chk.fail("Abort called with %s" % (o[1],))
            if str(k) not in o[-1] or "rank %d" % r not in o[-1]:
                chk.fail("message %r does not tell error and rank" % o[-1])


def cases(tier):
    out = []
    for P in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for nested in (0, 1, 2):
            out.append(("Err", dict(name="P%d-%d" % (P, nested), P=P, nested=nested, w=5)))
    return out
