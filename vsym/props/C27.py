"""eagle_filename: names of the files of an Eagle run."""
from .common import *

BOUNDS = ("any subset of 6-7 files of up to 3 snapshots with up to 3 different redshift labels (0-2 per snapshot) in 1-2 "
          "directories, any history of 2-3 calls out of 4, all 8 types of file, snapshot numbers 0-1000")
ASSUMPTIONS = ["redshift labels consist of digits; directory names have no wildcard characters"]

DIRS = {"eagle_subfind_tab": "groups", "eagle_subfind_snip_tab": "groups_snip", "group_tab": "groups",
        "group_snip_tab": "groups_snip", "eagle_subfind_particles": "particledata",
        "eagle_subfind_snip_particles": "particledata_snip", "snapshot": "snapshot", "snipshot": "snipshot"}
Z = ("z000p000", "z012p345", "z999p999")


def name(b, t, i, zd, zf, k):
    return "%s/%s_%03d_%s/%s_%03d_%s.%d.hdf5" % (b, DIRS[t], i, Z[zd], t, i, Z[zf], k)


class Hist(H):
    mpi = False
    needs_files = True
    files = ()          # (dir, type, snapshot, label of directory, label of file, file number)
    calls = ()          # (dir, type, snapshot, file number)
    n = 2

    def inputs(self, v):
        return dict(there=[v.choice("there%d" % i, 2) for i in range(len(self.files))],
                    hist=[v.choice("call%d" % i, len(self.calls)) for i in range(self.n)])

    def setup_files(self, env, inp):
        env.write_text("other_z000p000.0.hdf5", "x")
        for f, t in zip(self.files, inp["there"]):
            if t:
                env.write_text(name(*f), "x")

    def rank(self, env, comm, r, inp):
        fn = env.load("virgo.sims.eagle").eagle_filename
        out = []
        for c in inp["hist"]:
            b, t, i, k = self.calls[c]
            try:
                out.append(fn(env.path(b), t, i, k))
            except IOError:
                out.append(IOError)
        return [o if o is IOError else o[len(env.path("")):] for o in out]

    def oracle(self, chk, inp, outs):
        known = {}
        for c, o in zip(inp["hist"], outs[0]):
            b, t, i, k = self.calls[c]
            if (b, t, i) in known:
                z = known[b, t, i]
                if o != name(b, t, i, z, z, k):
                    chk.fail("%r for call %s with known label %s" % (o, self.calls[c], Z[z]))
                continue
            m = [f for f, there in zip(self.files, inp["there"]) if there and f[:3] == (b, t, i) and f[5] == k]
            if len(m) != 1:
                if o is not IOError:
                    chk.fail("%r for call %s, but %d files match" % (o, self.calls[c], len(m)))
                continue
            if o != name(*m[0]):
                chk.fail("%r for call %s, expected %r" % (o, self.calls[c], name(*m[0])))
            known[b, t, i] = m[0][4]


class Types(H):
    mpi = False
    needs_files = True

    def inputs(self, v):
        return dict(t=v.choice("type", 8), i=(0, 7, 28, 100, 999, 1000)[v.choice("snap", 6)], k=(0, 9, 15, 1023)[v.choice("file", 4)],
                    z=v.choice("z", 3))

    def setup_files(self, env, inp):
        for t in DIRS:
            for i in (inp["i"], inp["i"] + 1):
                for k in (inp["k"], inp["k"] + 10):
                    env.write_text(name("run.1", t, i, inp["z"], inp["z"], k), "x")

    def rank(self, env, comm, r, inp):
        fn = env.load("virgo.sims.eagle").eagle_filename
        t = sorted(DIRS)[inp["t"]]
        bad = False
        try:
            fn(env.path("run.1"), t + "s", inp["i"], inp["k"])
        except (KeyError, ValueError):
            bad = True
        return bad, [fn(basedir=env.path("run.1"), basename=t, isnap=inp["i"], ifile=k)[len(env.path("")):]
                     for k in (inp["k"], inp["k"], inp["k"] + 10, inp["k"] + 20)]

    def oracle(self, chk, inp, outs):
        bad, o = outs[0]
        t = sorted(DIRS)[inp["t"]]
        if not bad:
            chk.fail("type %r was accepted" % (t + "s"))
        want = [name("run.1", t, inp["i"], inp["z"], inp["z"], k) for k in (inp["k"], inp["k"], inp["k"] + 10, inp["k"] + 20)]
        if list(o) != want:
            chk.fail("%r, expected %r" % (o, want))


def cases(tier):
    out = []
    T = tier == "thorough"
    S, P = "snapshot", "eagle_subfind_tab"

    def add(cls, name, w=5, **k):
        out.append((cls, dict(k, name=name, w=w)))
    add("Types", "alltypes")
    n = 3 if T else 2
    # same snapshot in two directories; file numbers
    add("Hist", "dirs", n=n, w=20, files=[("a", S, 3, 0, 0, 0), ("b", S, 3, 1, 1, 0), ("a", S, 3, 0, 0, 1), ("b", S, 3, 1, 1, 1)],
        calls=[("a", S, 3, 0), ("b", S, 3, 0), ("a", S, 3, 1), ("b", S, 3, 1)])
    # snapshots
    add("Hist", "snaps", n=n, w=20, files=[("a", S, 3, 0, 0, 0), ("a", S, 4, 1, 1, 0), ("a", S, 34, 2, 2, 0), ("a", S, 3, 0, 0, 10)],
        calls=[("a", S, 3, 0), ("a", S, 4, 0), ("a", S, 34, 0), ("a", S, 3, 10)])
    # types
    add("Hist", "types", n=n, w=20, files=[("a", S, 3, 0, 0, 0), ("a", P, 3, 1, 1, 0), ("a", "group_tab", 3, 1, 1, 0), ("a", P, 3, 1, 1, 2)],
        calls=[("a", S, 3, 0), ("a", P, 3, 0), ("a", "group_tab", 3, 0), ("a", P, 3, 2)])
    # several labels for one snapshot
    add("Hist", "labels", n=3, w=20, files=[("a", S, 3, 0, 0, 0), ("a", S, 3, 1, 1, 0), ("a", S, 3, 2, 2, 1), ("a", S, 3, 0, 0, 2)],
        calls=[("a", S, 3, 0), ("a", S, 3, 1), ("a", S, 3, 2)])
    if T:
        add("Hist", "labels4", n=4, w=60, files=[("a", S, 3, 0, 0, 0), ("a", S, 3, 1, 1, 0), ("a", S, 3, 2, 2, 1), ("a", S, 3, 0, 0, 2)],
            calls=[("a", S, 3, 0), ("a", S, 3, 1), ("a", S, 3, 2)])
    return out
