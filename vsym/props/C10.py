"""Collective helpers for ranks without data, and the MPI argument parser."""
from .common import *
import threading
import sys

BOUNDS = ("1-4 ranks; every subset of ranks without an array; local lengths 0..2; trailing shapes of 0-2 "
          "dimensions; argument parser with every combination of valid and invalid command lines over ranks")
ASSUMPTIONS = ["ranks that have an array agree on dtype and trailing shape"]


class NoneArr(H):
    dt = "f4"
    tail = ()
    fn = "replace"
    most = 2        # rows

    def inputs(self, v):
        nv = int(np.prod(self.tail, dtype=int))
        n = [v.choice("n%d" % r, self.most + 2) - 1 for r in range(self.P)]       # -1: None
        return dict(n=n, a=[ivals(v, "a%d" % r, k * nv, self.dt) if k > 0 else [] for r, k in enumerate(n)])

    def rank(self, env, comm, r, inp):
        u = env.load("virgo.mpi.util")
        n = inp["n"][r]
        a = None if n < 0 else env.arr(inp["a"][r], self.dt, (n,) + tuple(self.tail))
        kw = dict(comm=comm) if getattr(self, "with_comm", True) else {}
        if self.fn == "replace":
            b = u.replace_none_with_zero_size(a, **kw)
            return dict(out=b, same=b is a)
        d, s = u.broadcast_dtype_and_dims(a, **kw)
        return dict(d=None if d is None else str(np.dtype(d)), s=None if s is None else tuple(int(x) for x in s))

    def oracle(self, chk, inp, outs):
        have = any(n >= 0 for n in inp["n"])
        for r, o in enumerate(outs):
            if self.fn == "replace":
                if not have:
                    chk.that(o["out"] is None, "None on all ranks gives None")
                elif inp["n"][r] >= 0:
                    chk.that(o["same"], "an existing array is returned as it is")
                    chk.arr(o["out"], inp["a"][r], "array", dt=self.dt, shape=(inp["n"][r],) + tuple(self.tail))
                else:
                    chk.arr(o["out"], [], "empty array", dt=self.dt, shape=(0,) + tuple(self.tail))
            elif have:
                chk.eq(o["d"], str(np.dtype(self.dt)), "dtype")
                chk.eq(o["s"], tuple(self.tail), "trailing shape")
            else:
                chk.that(o["d"] is None and o["s"] is None, "None on all ranks gives (None, None)")


class Router:
    """Stand-in for sys.stderr which keeps what each rank (thread) writes."""
    def __init__(self):
        self.local = threading.local()
        self.real = None

    def install(self):
        if sys.stderr is not self:
            self.real = sys.stderr
            sys.stderr = self

    def start(self):
        self.local.text = ""

    def stop(self):
        t = self.local.text
        self.local.text = None
        return t

    def write(self, s):
        if getattr(self.local, "text", None) is None:
            return self.real.write(s)
        self.local.text += s
        return len(s)

    def __getattr__(self, name):
        return getattr(self.real, name)


ROUTER = Router()


class ArgParse(H):
    novalidate = False

    def inputs(self, v):
        return dict(kind=[v.choice("kind%d" % r, 3) for r in range(self.P)])

    def rank(self, env, comm, r, inp):
        u = env.load("virgo.mpi.util")
        k = inp["kind"][r]
        argv = [["file%d" % r, "--n", str(10 + r)], ["file%d" % r, "--n", "bad"], []][k]
        fin = []
        MPI = env.mod("mpi4py.MPI")
        p = u.MPIArgumentParser(comm, description="x")
        p.add_argument("fname")
        p.add_argument("--n", type=int, default=1)
        real_fin = None
        ROUTER.install()
        ROUTER.start()
        try:
            if not env.sym:
                # stand-in: the real MPI.Finalize would end the job before the result is recorded
                real_fin = MPI.Finalize
                MPI.Finalize = lambda: fin.append(1)
            try:
                a = p.parse_args(argv)
                res = ("args", a.fname, a.n)
            except SystemExit as e:
                res = ("exit", e.code)
            except Exception as e:
                res = ("exit", 0) if type(e).__name__ == "MPIFinalized" else ("raised", type(e).__name__)
        finally:
            msg = ROUTER.stop()
            if real_fin is not None:
                MPI.Finalize = real_fin
        return res + (len(msg.strip()) > 0,)

    def oracle(self, chk, inp, outs):
        for r, o in enumerate(outs):
            if inp["kind"][0] == 0:
                chk.eq(tuple(o[:3]), ("args", "file0", 10), "arguments of rank 0 on rank %d" % r)
            else:
                chk.eq(o[0], "exit", "all ranks exit when rank 0 has bad arguments (rank %d: %r)" % (r, o))
                chk.eq(bool(o[-1]), r == 0, "the error message is written by rank 0 only (rank %d)" % r)


def cases(tier):
    L = []
    k = 0
    for P in (1, 2, 3, 4):
        for tail in [(), (3,), (2, 2)]:
            for fn in ("replace", "bcast"):
                if P == 4 and tail == (2, 2):
                    continue
                L.append(("NoneArr", dict(name="%s-P%d-%s" % (fn, P, "x".join(map(str, tail)) or "1d"), P=P, fn=fn,
                                          tail=list(tail), dt=["f4", "u1", "u2", "f8"][(k // 2) % 4], w=4 ** P)))
                k += 1
        L.append(("ArgParse", dict(name="argparse-P%d" % P, P=P, w=3 ** P)))
    L.append(("NoneArr", dict(name="replace-world-P2", P=2, fn="replace", tail=[2], with_comm=False)))
    # a communicator which is not COMM_WORLD
    L.append(("NoneArr", dict(name="replace-idle", P=2, fn="replace", tail=[2], dt="i4", idle=1)))
    L.append(("NoneArr", dict(name="bcast-idle", P=3, fn="bcast", tail=[], dt="f4", idle=2)))
    L.append(("ArgParse", dict(name="argparse-idle", P=2, idle=1)))
    # other byte orders, text, structures
    for dt, most in ((">i4", 2), (">f8", 1), (">u2", 1), ("S5", 0), ("b1", 0), ("U3", 0), ("i4,f8", 0)):
        for fn in ("replace", "bcast"):
            for P, tail in ((2, []), (3, [2])):
                if not (P == 3 and most):
                    L.append(("NoneArr", dict(name="%s-%s-P%d" % (fn, dt, P), P=P, fn=fn, dt=dt,
                                              most=most, tail=tail)))
    for tail in ([1, 2, 1], [2, 1, 1, 1], [0, 2], [2, 0], [0]):
        L.append(("NoneArr", dict(name="replace-P2-" + "x".join(map(str, tail)), P=2, fn="replace", dt="i2", tail=tail)))
    if tier == "thorough":
        for tail in [(), (3,), (2, 2)]:
            for fn in ("replace", "bcast"):
                L.append(("NoneArr", dict(name="%s-P5-%s" % (fn, "x".join(map(str, tail)) or "1d"), P=5, fn=fn,
                                          tail=list(tail), dt="f4", w=900)))
    return L
