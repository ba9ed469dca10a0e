"""group_index_from_length_and_offset: group membership of distributed ids."""
from .common import *

BOUNDS = ("1-4 ranks, up to 3 groups in total with symbolic lengths and gaps over up to 6 particles, every "
          "listed distribution of groups and particles over ranks, int32/uint32/int64/uint64 inputs")
ASSUMPTIONS = ["groups are stored in order of increasing offset and do not overlap (subfind/VELOCIraptor layout); "
               "empty groups carry the offset at which they would start; group count and group length below 2**31"]


class GroupIndex(H):
    ldt = "i4"
    odt = "i8"
    return_rank = True

    def inputs(self, v):
        ng = sum(self.ng)
        tot = sum(self.nids)
        gl, go = [], []
        pos = 0
        for i in range(ng):
            gap = v.choice("gap%d" % i, min(2, tot - pos + 1)) if getattr(self, "gaps", True) else 0
            pos += gap
            ln = v.int("len%d" % i, 0, tot, self.ldt)
            v.assume(ln <= tot - pos)
            n = int(ln)
            gl.append(n)
            go.append(pos)
            pos += n
        return dict(gl=gl, go=go)

    def rank(self, env, comm, r, inp):
        u = env.load("virgo.mpi.util")
        o = offsets(self.ng)[r]
        n = self.ng[r]
        ln = env.arr([np.dtype(self.ldt).type(x) for x in inp["gl"][o:o + n]], self.ldt)
        of = env.arr([np.dtype(self.odt).type(x) for x in inp["go"][o:o + n]], self.odt)
        kw = dict(return_rank=True) if self.return_rank else {}
        return dict(res=u.group_index_from_length_and_offset(ln, of, self.nids[r], comm=comm, **kw), ln=ln, of=of)

    def oracle(self, chk, inp, outs):
        tot = sum(self.nids)
        g = [-1] * tot
        k = [-1] * tot
        for i, (n, o) in enumerate(zip(inp["gl"], inp["go"])):
            for j in range(n):
                g[o + j] = i
                k[o + j] = j
        pos = 0
        for r, out in enumerate(outs):
            n = self.nids[r]
            res = out["res"]
            if self.return_rank:
                if not isinstance(res, tuple) or len(res) != 2:
                    chk.fail("expected (group, rank)")
                chk.arr(res[1], k[pos:pos + n], "rank of a particle in its group on MPI rank %d" % r, shape=(n,))
                res = res[0]
            chk.arr(res, g[pos:pos + n], "group index of particles on MPI rank %d" % r, shape=(n,))
            pos += n
            a = offsets(self.ng)[r]
            chk.eqlist([int(x) for x in els(out["ln"])], inp["gl"][a:a + self.ng[r]], "lengths unchanged")
            chk.eqlist([int(x) for x in els(out["of"])], inp["go"][a:a + self.ng[r]], "offsets unchanged")


class GroupIndexSym(GroupIndex):
    """Same with lengths and offsets left symbolic (single rank arithmetic)."""


def cases(tier):
    L = []

    def add(ng, nids, w=1, **k):
        nm = "groups-" + ".".join(map(str, ng)) + "-ids-" + ".".join(map(str, nids)) + \
            "".join("-%s%s" % (a, b) for a, b in sorted(k.items()))
        L.append(("GroupIndex", dict(name=nm, P=len(ng), ng=list(ng), nids=list(nids), w=w, **k)))
    types = [("i4", "i8"), ("u4", "u8"), ("u8", "u8"), ("i8", "u4"), ("i4", "i4")]
    k = 0
    for ng in [(2,), (3,), (0,)]:
        for nids in [(0,), (3,), (5,)]:
            add(ng, nids, w=20, ldt=types[k % 5][0], odt=types[k % 5][1])
            k += 1
    for ng in [(2, 0), (0, 2), (1, 1), (2, 1), (0, 0), (0, 3)]:
        for nids in [(2, 2), (0, 3), (3, 0), (4, 1)]:
            add(ng, nids, w=60, ldt=types[k % 5][0], odt=types[k % 5][1], return_rank=bool(k % 3))
            k += 1
    for ng in [(1, 1, 1), (0, 2, 0), (0, 0, 2), (3, 0, 0), (1, 0, 1)]:
        for nids in [(1, 2, 1), (0, 0, 3), (2, 0, 2), (0, 3, 0), (3, 0, 0)]:
            add(ng, nids, w=120, ldt=types[k % 5][0], odt=types[k % 5][1], return_rank=bool(k % 3))
            k += 1
    for ng, nids in [((1, 0, 0, 1), (1, 0, 2, 1)), ((0, 0, 2, 0), (1, 1, 1, 1)), ((2, 0, 0, 0), (0, 1, 0, 2))]:
        add(ng, nids, w=120)
    # a communicator which is not COMM_WORLD
    add((1, 1), (2, 2), w=60, idle=1, return_rank=True)
    add((0, 2), (1, 3), w=60, idle=2)
    if tier == "thorough":
        for ng in [(2, 1, 1), (1, 2, 1), (0, 4, 0), (4, 0, 0), (0, 0, 4)]:
            for nids in [(2, 2, 2), (0, 5, 1), (1, 0, 5), (3, 0, 3), (6, 0, 0)]:
                add(ng, nids, w=800)
        for ng in [(1, 1, 1, 1), (0, 2, 0, 2), (1, 0, 0, 2)]:
            for nids in [(2, 0, 2, 1), (1, 1, 1, 1), (0, 0, 4, 0)]:
                add(ng, nids, w=800)
    return L
