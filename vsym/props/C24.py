"""lgadget2.Snapshot: reading parts of a snapshot with the hash table."""
from .common import *
from .C23 import HILB

BOUNDS = ("grids of 2 and 4 cells per side (8 or 64 hash cells) in 1-3 files, 0-3 particles per cell, up to 7 in all, with "
          "symbolic positions and velocities; any subset of the cells of a file with particles and any two successive reads; "
          "regions with one symbolic extent from one period below to one above the box, the others of 4 kinds")
ASSUMPTIONS = ["particles are inside the cell under which they are filed"]


class S(H):
    mpi = False
    needs_files = True
    bits = 1
    files = ((0, (1, 0, 2, 0)), (4, (0, 1, 1, 0)))       # (first cell, particles per cell)
    box = 64.0
    mod = "virgo.formats.subfind_lgadget2"

    def parts(self):
        """(particle number, cell number, file) in storage order."""
        i = 0
        for k, (h0, cells) in enumerate(self.files):
            for j, n in enumerate(cells):
                for _ in range(n):
                    yield i, h0 + j, k
                    i += 1

    def data(self, v):
        h = self.box / 2 ** self.bits
        pos, vel = [], []
        for i, c, k in self.parts():
            for j in range(3):
                lo = HILB[self.bits][c][j] * h
                pos.append(v.real("x%d.%d" % (i, j), np.float32, lo, lo + h))
            vel += [v.real("v%d.%d" % (i, j), np.float32) for j in range(3)]
        return dict(pos=pos, vel=vel, ids=[np.uint64(5000 - 7 * i) for i, _, _ in self.parts()])

    def setup_files(self, env, inp):
        ntot = len(inp["ids"])
        at = 0
        for k, (h0, cells) in enumerate(self.files):
            n, nh = sum(cells), len(cells)
            hdr = [("<u4", [0, n, 0, 0, 0, 0]), ("<f8", [0.0] * 8), ("<i4", [0, 0]), ("<u4", [0, ntot, 0, 0, 0, 0]),
                   ("<i4", [0, len(self.files)]), ("<f8", [self.box, 0.25, 0.75, 0.73]), ("<i4", [0, 0, 8 ** self.bits]),
                   b"\0" * 84]
            off = [sum(cells[:j]) for j in range(nh)]

            def rec(*p):
                m = 0
                for x in p:
                    m += len(x) if isinstance(x, bytes) else np.dtype(x[0]).itemsize * len(x[1])
                return [("<i4", [m])] + list(p) + [("<i4", [m])]
            env.write_bin("snapdir_007/snap_x_007.%d" % k,
                          rec(*hdr) + rec(("<f4", inp["pos"][3 * at:3 * (at + n)])) +
                          rec(("<f4", inp["vel"][3 * at:3 * (at + n)])) + rec(("<u8", inp["ids"][at:at + n])) +
                          rec(("<i4", [h0, h0 + nh - 1])) + rec(("<i4", off)))
            at += n

    def rank(self, env, comm, r, inp):
        s = env.load(self.mod).Snapshot(env.path("")[:-1] or ".", "snap_x", 7)
        return [self.read(env, s, q) for q in inp["q"]]

    def compare(self, chk, inp, out, want):
        """want(i, cell) -> True, False or None (either)."""
        pos, vel, ids = out
        got = [int(x) for x in els(ids)]
        num = {int(x): i for i, x in enumerate(inp["ids"])}
        if shp(pos) != (len(got), 3) or shp(vel) != (len(got), 3):
            chk.fail("shapes %s %s for %d ids" % (shp(pos), shp(vel), len(got)))
        for a, b in ((pos, "f4"), (vel, "f4"), (ids, "u8")):
            if np.dtype(a.dtype) != np.dtype(b):
                chk.fail("type %s instead of %s" % (a.dtype, b))
        idx = [num.get(x, -1) for x in got]
        if idx != sorted(set(idx)) or -1 in idx:
            chk.fail("particles returned are %s" % idx)
        for i, c, _ in self.parts():
            need, may = want(i, c)
            if i in idx:
                chk.that(may, "particle outside the requested cells returned")
            else:
                chk.that(snot(need), "particle missing")
        p, w = els(pos), els(vel)
        for k, i in enumerate(idx):
            chk.eqlist(p[3 * k:3 * k + 3], inp["pos"][3 * i:3 * i + 3], "position of particle %d" % i)
            chk.eqlist(w[3 * k:3 * k + 3], inp["vel"][3 * i:3 * i + 3], "velocity of particle %d" % i)


class Cells(S):
    calls = 1
    among = None

    def inputs(self, v):
        inp = self.data(v)
        among = self.among or range(8 ** self.bits)
        q = []
        for k in range(self.calls):
            sel = [c for c in among if bool(v.bool("c%d.%d" % (k, c)))]
            if not sel:
                v.assume(False)
            if self.bits == 1 and k == 0:
                sel = sel[::-1] + sel[:1]       # any order, repeats
            q.append(sel)
        inp["q"] = q
        return inp

    def read(self, env, s, q):
        return s.read_cells(env.arr([np.int64(x) for x in q], "i8"))

    def oracle(self, chk, inp, outs):
        for q, o in zip(inp["q"], outs[0]):
            self.compare(chk, inp, o, lambda i, c: (c in q,) * 2)


class Region(S):
    axis = 0
    other = (0.0, 64.0, 0.0, 31.5)
    again = False

    def inputs(self, v):
        inp = self.data(v)
        lo = v.real("lo", np.float64, -self.box, 2 * self.box)
        hi = v.real("hi", np.float64, -self.box, 2 * self.box)
        v.assume(sand(lo <= hi, lo < 2 * self.box, hi < 2 * self.box))
        q = list(self.other)
        q[2 * self.axis:2 * self.axis] = [lo, hi]
        inp["q"] = [q]
        if self.again:
            inp["q"].append([1.0, 2.0, -3.0, 5.0, 60.0, 63.0])
        return inp

    def read(self, env, s, q):
        return s.read_region(tuple(q))

    def oracle(self, chk, inp, outs):
        h = self.box / 2 ** self.bits
        for q, o in zip(inp["q"], outs[0]):
            def want(i, c):
                need = may = True
                for j in range(3):
                    lo, hi = q[2 * j], q[2 * j + 1]
                    x = inp["pos"][3 * i + j]
                    c0 = HILB[self.bits][c][j] * h
                    a = b = False
                    for k in range(-3, 4):
                        s = k * self.box
                        # positions on the upper face of a cell belong to it or the next one
                        a = sor(a, sand(lo <= x + s, x + s <= hi, x < c0 + h))
                        b = sor(b, sand(lo <= c0 + h + s, c0 + s <= hi))
                    need, may = sand(need, a), sand(may, b)
                return need, may
            self.compare(chk, inp, o, want)


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    one = ((0, (1, 0, 2, 0, 0, 1, 1, 1)),)
    three = ((0, (0, 1)), (2, (0, 0, 0)), (5, (2, 0, 1)))
    big = ((0, (0,) * 20), (20, (0, 1, 0, 2) + (0,) * 20), (44, (0,) * 19 + (1,)))
    add("Cells", "two", w=100)
    add("Cells", "one", files=one, w=100)
    add("Cells", "three", files=three, w=100)
    add("Cells", "twice", calls=2, among=(0, 2, 3, 5), w=100)
    add("Cells", "big", bits=2, files=big, among=(0, 21, 22, 23, 44, 63), w=100)
    others = ((0.0, 63.0, 0.0, 31.5), (-10.0, 5.0, 40.0, 100.0), (33.0, 33.0, 10.0, 20.0))
    for ax in range(3):
        for k, o in enumerate(others):
            add("Region", "two-%d-%d" % (ax, k), axis=ax, other=o, w=60)
        add("Region", "three-%d" % ax, axis=ax, files=three, other=(-70.0, 70.0, 32.0, 40.0), again=True, w=60)
    add("Region", "big", bits=2, files=big, axis=1, other=(0.0, 63.0, 1.0, 40.0), w=200)
    if T:
        add("Cells", "twicefull", calls=2, w=500, limit=10 ** 6)
        for ax in range(3):
            for k, o in enumerate(others):
                add("Region", "big-%d-%d" % (ax, k), bits=2, files=big, axis=ax, other=o, again=True, w=300)
    return L
