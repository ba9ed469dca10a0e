"""util.peano: Peano-Hilbert keys."""
from .common import *

BOUNDS = ("every grid position and key for 1-3 bits per dimension (thorough 4); for 5-21 bits every setting of a window of "
          "2 bits per dimension at 3 depths with fixed bits elsewhere; arrays of 0-5 positions crossing blocks (block "
          "size set to 2) and, thorough, of 10001 with the default block size; positions on a lattice of a quarter of a "
          "cell, and pairs of neighbouring cells for up to 21 bits")
ASSUMPTIONS = ["coordinates are inside the grid and the box size is a power of two times the lattice spacing"]


class Ref:
    """Independent description of the same curve (Gadget-2 peano.c tables)."""
    quadrants = [
        [0, 7, 1, 6, 3, 4, 2, 5], [7, 4, 6, 5, 0, 3, 1, 2], [4, 3, 5, 2, 7, 0, 6, 1], [3, 0, 2, 1, 4, 7, 5, 6],
        [1, 0, 6, 7, 2, 3, 5, 4], [0, 3, 7, 4, 1, 2, 6, 5], [3, 2, 4, 5, 0, 1, 7, 6], [2, 1, 5, 6, 3, 0, 4, 7],
        [6, 1, 7, 0, 5, 2, 4, 3], [1, 2, 0, 3, 6, 5, 7, 4], [2, 5, 3, 4, 1, 6, 0, 7], [5, 6, 4, 7, 2, 1, 3, 0],
        [7, 6, 0, 1, 4, 5, 3, 2], [6, 5, 1, 2, 7, 4, 0, 3], [5, 4, 2, 3, 6, 7, 1, 0], [4, 7, 3, 0, 5, 6, 2, 1],
        [6, 7, 5, 4, 1, 0, 2, 3], [7, 0, 4, 3, 6, 1, 5, 2], [0, 1, 3, 2, 7, 6, 4, 5], [1, 6, 2, 5, 0, 7, 3, 4],
        [2, 3, 1, 0, 5, 4, 6, 7], [3, 4, 0, 7, 2, 5, 1, 6], [4, 5, 7, 6, 3, 2, 0, 1], [5, 2, 6, 1, 4, 3, 7, 0]]
    rotx = [4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0, 1, 2, 3, 17, 18, 19, 16, 23, 20, 21, 22]
    roty = [1, 2, 3, 0, 16, 17, 18, 19, 11, 8, 9, 10, 22, 23, 20, 21, 14, 15, 12, 13, 4, 5, 6, 7]
    nx = [3, 0, 0, 2, 2, 0, 0, 1]
    ny = [0, 1, 1, 2, 2, 3, 3, 0]
    rev = [True, True, True, False, False, True, True, True]

    @classmethod
    def key(cls, x, y, z, bits):
        rot, fwd, k = 0, True, 0
        for i in reversed(range(bits)):
            q = cls.quadrants[rot][((x >> i & 1) << 2) + ((y >> i & 1) << 1) + (z >> i & 1)]
            k = k * 8 + (q if fwd else 7 - q)
            for _ in range(cls.nx[q]):
                rot = cls.rotx[rot]
            for _ in range(cls.ny[q]):
                rot = cls.roty[rot]
            if cls.rev[q]:
                fwd = not fwd
        return k


class P(H):
    mpi = False
    bits = 2
    fixed = None        # (mask of symbolic bits, values of the others for x, y, z)
    block = None

    def coord(self, v, name, other=0):
        lo, n = self.window if self.fixed else (0, self.bits)
        b = v.bits(name, n, "i4")
        if self.fixed:
            return (b << lo) | other
        return b

    def load(self, env):
        m = env.load("virgo.util.peano")
        if self.block:
            m.blocksize = self.block
        return m


class Keys(P):
    """Key of every position: in range, invertible, nested, as in Gadget."""
    scalar = False
    n = 1
    extra = 0

    def inputs(self, v):
        f = self.fixed or (0, 0, 0)
        return dict(x=self.coord(v, "x", f[0]), y=self.coord(v, "y", f[1]), z=self.coord(v, "z", f[2]))

    def rank(self, env, comm, r, inp):
        m = self.load(env)
        b = self.bits
        if self.scalar:
            k = m.peano_hilbert_keys_block(inp["x"], inp["y"], inp["z"], b)
            c = m.peano_hilbert_key_inverses_block(k, b)
            return dict(k=k, c=c)
        # the position of interest is element `at` of a larger array
        pad = [((i * 5 + 3) % (1 << b), (i * 3 + 1) % (1 << b), (i * 7 + 2) % (1 << b)) for i in range(self.n)]
        at = self.at
        a = [env.arr([inp[q] if i == at else np.int32(p[d]) for i, p in enumerate(pad)], "i4")
             for d, q in enumerate("xyz")]
        k = m.peano_hilbert_keys(a[0], a[1], a[2], b)
        c = m.peano_hilbert_key_inverses(k, b)
        up = None
        if b > 1:
            up = m.peano_hilbert_keys(a[0] >> 1, a[1] >> 1, a[2] >> 1, b - 1)
        return dict(k=k, c=c, up=up, a=a, pad=pad)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        b = self.bits
        want = [int(inp[q]) for q in "xyz"]
        if self.scalar:
            chk.eq(int(o["k"]), Ref.key(*want, b), "key of a scalar position")
            chk.eqlist([int(q) for q in o["c"]], want, "position of a scalar key")
            return
        pos = [tuple(want) if i == self.at else p for i, p in enumerate(o["pad"])]
        keys = [int(q) for q in els(o["k"])]
        if np.dtype(o["k"].dtype) != np.dtype("i8"):
            chk.fail("keys are not 64 bit integers")
        chk.eqlist(keys, [Ref.key(*p, b) for p in pos], "keys")
        for p, k in zip(pos, keys):
            chk.that(0 <= k < 8 ** b, "key out of range")
        for d in range(3):
            chk.eqlist([int(q) for q in els(o["c"][d])], [p[d] for p in pos], "inverse of the key, coordinate %d" % d)
            chk.eqlist([int(q) for q in els(o["a"][d])], [p[d] for p in pos], "coordinates unchanged")
        if o["up"] is not None:
            chk.eqlist([int(q) for q in els(o["up"])], [k >> 3 for k in keys], "key of the enclosing cell")


class Curve(P):
    """Position of every key: invertible, consecutive keys are neighbours."""

    def inputs(self, v):
        # the key and its successor: the carry stops at bit m
        lo, n = self.window if self.fixed else (0, 3 * self.bits)
        m = v.choice("carry", n if lo == 0 else 1)
        if lo:
            k = v.bits("k", n, "i8") << lo | (self.fixed[0] & ~1)
            return dict(k=k, k1=k | 1)
        top = v.bits("k", n - m - 1, "i8") << (m + 1) if n > m + 1 else np.int64(0)
        if self.fixed:
            top = top | self.fixed[0]
        return dict(k=top | ((1 << m) - 1), k1=top | (1 << m))

    def rank(self, env, comm, r, inp):
        m = self.load(env)
        k = env.arr([inp["k"], inp["k1"], np.int64(8 ** self.bits - 1), np.int64(0)], "i8")
        c = m.peano_hilbert_key_inverses(k, self.bits)
        return dict(c=c, k=m.peano_hilbert_keys(c[0], c[1], c[2], self.bits), k0=k)

    def oracle(self, chk, inp, outs):
        o = outs[0]
        k = int(inp["k"])
        top = 8 ** self.bits - 1
        ks = [k, k + 1, top, 0]
        chk.eqlist([int(q) for q in els(o["k"])], ks, "key of the position of a key")
        chk.eqlist([int(q) for q in els(o["k0"])], ks, "keys unchanged")
        c = [[int(q) for q in els(a)] for a in o["c"]]
        for a in c:
            for q in a:
                chk.that(0 <= q < 1 << self.bits, "position out of range")
        d = sorted(abs(a[0] - a[1]) for a in c)
        chk.that(d == [0, 0, 1], "positions of consecutive keys are not adjacent")
        for i in range(4):
            chk.eq(Ref.key(c[0][i], c[1][i], c[2][i], self.bits), ks[i], "position is where Gadget puts the key")


class Coords(P):
    """Keys from floating point coordinates."""
    box = 1.0
    dt = "f8"
    n = 3
    at = 1
    span = None         # (first cell of a range of two cells in each dimension)

    def inputs(self, v):
        r = [(4 * s, 4 * s + 7) for s in self.span] if self.span else [(0, 2 ** self.bits * 4 - 1)] * 3
        q = [v.int("p%d" % d, *r[d], "i8") for d in range(3)]
        return dict(q=q)

    def rank(self, env, comm, r, inp):
        m = self.load(env)
        cell = self.box / 2 ** self.bits
        pad = [((i * 5 + 3) % (4 << self.bits), (i * 3 + 1) % (4 << self.bits), (i * 7 + 2) % (4 << self.bits))
               for i in range(self.n)]
        rows = []
        for i in range(self.n):
            rows += inp["q"] if i == self.at else [np.int64(x) for x in pad[i]]
        pos = (env.arr(rows, "i8", (self.n, 3)).astype("f8") * (cell / 4)).astype(self.dt)
        return dict(k=m.peano_hilbert_keys_from_coords(pos, self.box, self.bits), pad=pad)

    def oracle(self, chk, inp, outs):
        pad = outs[0]["pad"]
        want = []
        for i in range(self.n):
            q = [int(x // 4) for x in inp["q"]] if i == self.at else [x // 4 for x in pad[i]]
            want.append(Ref.key(*q, self.bits))
        chk.eqlist([int(x) for x in els(outs[0]["k"])], want, "keys of coordinates")


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, w=5, **k):
        nm = cls + "".join("-%s%s" % (a, b) for a, b in sorted(k.items()) if a != "fixed") + \
            ("-fix" + ".".join("%x" % q for q in k["fixed"]) if "fixed" in k else "")
        L.append((cls, dict(name=nm, w=w, **k)))
    for b in (1, 2, 3) + ((4,) if T else ()):
        add("Keys", bits=b, n=1, at=0, w=8 ** b // 8)
        add("Curve", bits=b, w=8 ** b // 8)
        add("Keys", bits=b, scalar=True, w=8 ** b // 8)
    for n in (2, 3, 4, 5):
        for at in range(n):
            if n in (3, 5) or at == n - 1:
                add("Keys", bits=2, n=n, at=at, block=2, w=64)
    pats = [0, 0x155555, 0x1fffff, 0x0f3c96]
    for b in (5, 10, 21) + ((7, 14, 16, 20) if T else ()):
        for lo in (0, b // 2, b - 2):
            for j in range(4 if T else 1):
                m = (1 << b) - 1
                keep = m & ~(3 << lo)
                add("Keys", bits=b, n=1, at=0, window=(lo, 2),
                    fixed=tuple(pats[(j + d + (b if j else 0)) % 4] & keep for d in range(3)), w=b * 4)
        for lo in (0, 3 * (b // 2) - 1, 3 * b - 5):
            m = 8 ** b - 1
            add("Curve", bits=b, window=(lo, 5), fixed=(0x3a5c_96e1_7d20_f48b & m & ~(31 << lo),), w=b * 3)
    for b, box, dt, block in [(1, 1.0, "f8", None), (2, 64.0, "f8", 2), (1, 0.5, "f4", 2), (2, 16.0, "f4", None)]:
        add("Coords", bits=b, box=box, dt=dt, block=block, w=20)
    for b, span in ((11, (2046, 1023, 0)), (21, (2097150, 1048575, 1))) + \
            (((12, (1, 4094, 2730)), (20, (1048574, 524287, 699050)), (21, (0, 1398101, 2097150))) if T else ()):
        add("Coords", bits=b, box=100.0 * 2 ** b, dt="f8", span=span, n=2, w=20)
    if T:
        add("Coords", bits=3, box=128.0, dt="f8", w=500)
        for at in (9999, 10000):
            add("Keys", bits=1, n=10001, at=at, w=1000)
    return L
