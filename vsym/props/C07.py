"""my_alltoallv and sendrecv: exact, complete and deadlock-free delivery."""
from .common import *

BOUNDS = ("1-5 ranks; per pair of ranks a symbolic count of 0..2 elements (0..5 where messages are split into "
          "chunks of 2), arbitrary gaps between regions; hypercube, async and default methods; element sizes "
          "from 1 byte to 40 MiB so that the 100 MiB message limit is crossed; sendrecv with symbolic lengths "
          "and chunk sizes")
ASSUMPTIONS = ["receive regions do not overlap; send and receive counts are consistent between ranks",
               "blocking sends are rendezvous (no buffering is assumed), non-blocking receives deliver at the wait"]
BIG = 41943040      # 40 MiB: two elements per message


def big_arr(env, elems, size, r=0):
    """Array of 40 MiB elements carrying one integer each."""
    if env.sym:
        a = env.np.zeros(size, dtype="S%d" % BIG)
        for i, x in enumerate(elems):
            a[i] = x
        return a
    a = np.zeros(size, dtype=[("id", "i8"), ("pad", "u1", (BIG - 8,))])
    for i, x in enumerate(elems):
        a["id"][i] = x
    return a


def big_out(env, a):
    return a.copy() if env.sym else a["id"].copy()


class AllToAll(H):
    method = "default"
    dt = "i8"
    big = False
    cmax = 2
    gap = 0
    stride = 1

    def inputs(self, v):
        P = self.P
        cnt = [[0] * P for _ in range(P)]
        for i in range(P):
            for j in range(P):
                fix = getattr(self, "counts", None)
                if fix is not None and fix[i][j] is not None:
                    cnt[i][j] = fix[i][j]
                elif getattr(self, "binary", False):
                    cnt[i][j] = v.choice("n%d_%d" % (i, j), 2) * self.cmax
                else:
                    cnt[i][j] = v.choice("n%d_%d" % (i, j), self.cmax + 1)
        data = [v.ints("d%d" % i, sum(cnt[i]) + self.gap * (P + 1), "i8" if self.big else self.dt) for i in range(P)]
        return dict(cnt=cnt, data=data)

    def layout(self, counts):
        """Offsets with gaps."""
        off, o = [], self.gap
        for c in counts:
            off.append(o)
            o += c + self.gap
        return off, o

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        P = self.P
        sc = inp["cnt"][r]
        so, sn = self.layout(sc)
        rc = [inp["cnt"][i][r] for i in range(P)]
        ro, rn = self.layout(rc)
        if self.big:
            send = big_arr(env, inp["data"][r], sn)
            recv = big_arr(env, [], rn)
        else:
            send = env.arr(inp["data"][r], self.dt)
            recv = env.np.zeros(rn, dtype=self.dt)
            if self.stride > 1:
                wide = env.np.zeros(sn * self.stride, dtype=self.dt)
                wide[::self.stride] = send
                send = wide[::self.stride]
        I = lambda x: env.np.asarray(x, dtype="i8")
        kw = {} if self.method == "default" else dict(method=self.method)
        ps.my_alltoallv(send, I(sc), I(so), recv, I(rc), I(ro), comm=comm, **kw)
        if self.big:
            return dict(recv=big_out(env, recv))
        return dict(recv=recv, send=send)

    def oracle(self, chk, inp, outs):
        P = self.P
        for r, o in enumerate(outs):
            rc = [inp["cnt"][i][r] for i in range(P)]
            ro, rn = self.layout(rc)
            want = [None] * rn
            for i in range(P):
                so = self.layout(inp["cnt"][i])[0][r]
                for k in range(rc[i]):
                    want[ro[i] + k] = inp["data"][i][so + k]
            got = els(o["recv"])
            if len(got) != rn:
                chk.fail("receive buffer changed size")
            for k in range(rn):
                if want[k] is None:
                    z = got[k]
                    chk.that(z == 0 if not isinstance(z, (bytes, str)) else True, "gap between regions is untouched")
                else:
                    chk.eq(got[k], want[k], "element %d received by rank %d" % (k, r))
            if not self.big:
                chk.eqlist(els(o["send"]), inp["data"][r], "send buffer is unchanged")


class SendRecv(H):
    P = 2
    dt = "i8"
    nmax = 3

    def inputs(self, v):
        n = [v.choice("n%d" % r, self.nmax + 1) for r in range(2)]
        ch = v.choice("chunk", 4)
        data = [v.ints("d%d" % i, n[i], self.dt) for i in range(2)]
        return dict(n=n, chunk=ch, data=data)

    def rank(self, env, comm, r, inp):
        ps = env.load("virgo.mpi.parallel_sort")
        send = env.arr(inp["data"][r], self.dt)
        recv = env.np.zeros(inp["n"][1 - r], dtype=self.dt)
        kw = dict(nchunk=inp["chunk"]) if inp["chunk"] else {}
        ps.sendrecv(1 - r, send, recv, comm=comm, **kw)
        return dict(recv=recv, send=send)

    def oracle(self, chk, inp, outs):
        for r in range(2):
            chk.arr(outs[r]["recv"], inp["data"][1 - r], "data received by rank %d" % r, dt=self.dt)
            chk.eqlist(els(outs[r]["send"]), inp["data"][r], "send buffer is unchanged")


def cases(tier):
    L = []

    def add(P, w=1, **k):
        nm = "a2av-P%d" % P + "".join("-%s%s" % (a, str(b).replace(" ", "")) for a, b in sorted(k.items()))
        L.append(("AllToAll", dict(name=nm, P=P, w=w, **k)))
    for m in ("default", "hypercube", "async"):
        add(1, method=m)
        add(2, w=50, method=m, dt=dict(default="i8", hypercube="f8", **{"async": "u1"})[m] if m != "hypercube" else "i4")
        add(2, w=50, method=m, gap=1, cmax=1)
        add(3, w=600, method=m, cmax=1, binary=True)
        N = None
        add(4, w=300, method=m, counts=[[0, N, 1, 0], [1, 0, 0, N], [0, N, 1, 0], [1, N, 0, 2]], cmax=2)
        add(5, w=300, method=m, counts=[[0, 1, 0, 2, N], [N, 0, 0, 1, 0], [0, 0, 1, 0, N], [1, N, 0, 0, 1],
                                        [2, 0, N, 1, 0]], cmax=1)
        # messages longer than the 100 MiB limit are split
        add(1, w=5, method=m, big=True, cmax=6, novalidate=True)
        add(2, w=100, method=m, big=True, counts=[[0, N], [N, 0]], cmax=5, novalidate=True)
        add(3, w=200, method=m, big=True, counts=[[0, N, 0], [0, 0, N], [N, 1, 0]], cmax=3, novalidate=True)
    for d in ("i8", "u1"):
        L.append(("SendRecv", dict(name="sendrecv-" + d, dt=d, w=50)))
    # a communicator which is not COMM_WORLD
    for m in ("default", "hypercube", "async"):
        add(2, w=50, method=m, idle=1, cmax=1)
        add(3, w=50, method=m, idle=2, counts=[[0, N, 1], [1, 0, N], [0, 1, 2]], cmax=2)
        add(2, w=50, method=m, stride=2, counts=[[2, N], [N, 3]], cmax=2)
    L.append(("SendRecv", dict(name="sendrecv-idle", dt="i4", w=50, idle=1)))
    if tier == "thorough":
        for m in ("hypercube", "async"):
            add(3, w=3000, method=m, cmax=2, binary=True, gap=1)
            add(2, w=800, method=m, cmax=4)
            add(6, w=800, method=m, counts=[[0] * 6, [N, 0, 1, 0, 0, N], [0, 1, 0, N, 0, 0], [2, 0, 0, 0, N, 1],
                                            [0, 0, N, 0, 0, 0], [1, 1, 1, 1, 1, 1]], cmax=2)
            add(2, w=800, method=m, big=True, cmax=3, novalidate=True)
        L.append(("SendRecv", dict(name="sendrecv-long", dt="i8", w=500, nmax=7)))
    return L
