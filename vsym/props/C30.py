"""consistency_check: reports of missing files in EAGLE and P-Gadget3 runs."""
import re
import sys

from .common import *
from .C21 import HDR, HLEN

BOUNDS = ("runs of up to 3 outputs; one set of files at a time (every kind of output, every output number) with any "
          "number of files from 1 to 4 in its header, any of the files 0-4 missing, the first one missing, "
          "unreadable, without header or of the other byte order, the directory missing, empty or (EAGLE) there twice; the other sets complete or all missing")
ASSUMPTIONS = ["directory names contain no glob special characters"]
EAGLE = "consistency_check/eagle/check_eagle_file_presence.py"
PG3 = "consistency_check/p-gadget3/check_pgadget3_file_presence.py"
# directory, file name, header attribute, of snapshots (0) or snipshots (1)
ESETS = [("snapshot", "snap", "NumFilesPerSnapshot", 0), ("groups", "group_tab", "NTask", 0),
         ("particledata", "eagle_subfind_particles", "NumFilesPerSnapshot", 0), ("groups", "eagle_subfind_tab", "NTask", 0),
         ("snipshot", "snip", "NumFilesPerSnapshot", 1), ("groups_snip", "group_snip_tab", "NTask", 1),
         ("particledata_snip", "eagle_subfind_snip_particles", "NumFilesPerSnapshot", 1),
         ("groups_snip", "eagle_subfind_snip_tab", "NTask", 1)]
PSETS = ["snap", "group_tab", "group_ids", "subhalo_tab", "subhalo_ids"]
OLD_ARGV = list(sys.argv)
LINE = re.compile(r"^\s*(\S+)\s+(\d+): (OK|MISSING)\s+- (?:(\d+) of (\d+)|no) (\S+) files present")
SUMM = re.compile(r"^\s*(\S+) - (\d+) of (\d+) directories not complete")


class Presence(H):
    mpi = False
    needs_files = True
    main = False
    active = 0
    others = 1          # files in the other sets (0: missing)
    dirs = 1            # states of the directory: there, missing, empty, twice
    firsts = 1          # of the first file: there, missing, not what it should be
    nmax = 4

    def inputs(self, v):
        i = v.choice("num", self.count())
        d = v.choice("dir", self.dirs)
        f = v.choice("first", self.firsts) if d == 0 else 1
        n = v.int("n", 1, self.nmax, "i4") if f == 0 else 1
        there = []
        if d in (0, 3):
            there = [k for k in range(1, self.nmax + 1) if v.choice("file%d" % k, 2)]
            if f == 0:
                there = [0] + there
        return dict(num=i, dir=d, first=f, n=n, there=there)

    def rank(self, env, comm, r, inp):
        out = []

        def pr(*a, sep=" ", end="\n", **k):
            out.append(sep.join(str(x) for x in a) + end)
        if self.main:
            sys.argv = ["check.py"] + self.argv(env)
            try:
                env.script(self.SCRIPT, "__main__", dict(print=pr))
            finally:
                sys.argv = OLD_ARGV
        else:
            m = env.script(self.SCRIPT, "check_files", dict(print=pr))
            self.call(env, m)
        return "".join(out).split("\n")

    def oracle(self, chk, inp, outs):
        got, summ = {}, {}
        insum = False
        for line in outs[0]:
            m = LINE.match(line)
            if m:
                if insum:
                    chk.fail("output after the summary: " + line)
                k = (m.group(1), int(m.group(2)), m.group(6))
                if k in got:
                    chk.fail("%s reported twice" % (k,))
                got[k] = (m.group(3), None if m.group(4) is None else (int(m.group(4)), int(m.group(5))))
            m = SUMM.match(line)
            if m:
                summ[m.group(1)] = (int(m.group(2)), int(m.group(3)))
            insum = insum or line.startswith("Summary")
        want = self.want(inp)
        if set(got) != {k[:3] for k in want}:
            chk.fail("reported: %s, expected %s" % (sorted(got), sorted(want)))
        total = {}
        for (d, i, f, t), (n, there) in want.items():
            st, c = got[d, i, f]
            b = total.setdefault(t, [0, 0])
            b[1] += 1
            if n is None:
                if st != "MISSING" or c is not None:
                    chk.fail("%s/%s %d: reported %s %s, there are none" % (d, f, i, st, c))
                b[0] += 1
                continue
            if c is None:
                chk.fail("%s/%s %d: none reported, %s are there" % (d, f, i, there))
            n = int(n)
            have = len([k for k in there if k < n])
            if c != (have, n) or (st == "OK") != (have == n):
                chk.fail("%s/%s %d: reported %s %s, %d of %d are there" % (d, f, i, st, c, have, n))
            b[0] += have != n
        bad = {t: tuple(b) for t, b in total.items() if b[0]}
        if summ != bad:
            chk.fail("summary: %s, expected %s" % (summ, bad))


class Eagle(Presence):
    SCRIPT = EAGLE
    ns = 1
    nn = 0

    def count(self):
        return self.nn if ESETS[self.active][3] else self.ns

    def fname(self, d, f, i, k, z="z%03dp%03d"):
        z = z % (10 - i, 7 * i)
        return "run/%s_%03d_%s/%s_%03d_%s.%d.hdf5" % (d, i, z, f, i, z, k)

    def put(self, env, name, attr, n):
        import os
        h5py = env.mod("h5py")
        if not env.sym:
            os.makedirs(os.path.dirname(env.path(name)), exist_ok=True)
        with h5py.File(env.path(name), "w") as g:
            g.create_group("Header").attrs[attr] = n

    def setup_files(self, env, inp):
        env.add_dir("run")
        for s, (d, f, attr, t) in enumerate(ESETS):
            for i in range(self.nn if t else self.ns):
                act = s == self.active and i == inp["num"]
                if act:
                    if inp["dir"] in (0, 3):
                        for k in inp["there"]:
                            self.put(env, self.fname(d, f, i, k), attr, inp["n"] if k == 0 else np.int32(9))
                        if inp["first"] == 2:
                            env.write_text(self.fname(d, f, i, 0), "not HDF5")
                    if inp["dir"] in (2, 3):
                        env.add_dir(self.fname(d, f, i, 0).rsplit("/", 1)[0])
                    if inp["dir"] == 3:
                        self.put(env, self.fname(d, f, i, 0, "z%03dp9%02d"), attr, np.int32(1))
                elif self.others and not (inp["dir"] == 1 and d == ESETS[self.active][0] and i == inp["num"]):
                    for k in range(self.others):
                        self.put(env, self.fname(d, f, i, k), attr, np.int32(self.others))

    def want(self, inp):
        w = {}
        for s, (d, f, attr, t) in enumerate(ESETS):
            for i in range(self.nn if t else self.ns):
                same = d == ESETS[self.active][0] and i == inp["num"]
                k = (d, i, f, f)
                if same and inp["dir"] in (1, 3):
                    w[k] = (None, [])
                elif s == self.active and i == inp["num"]:
                    w[k] = (inp["n"] if inp["first"] == 0 else None, inp["there"])
                else:
                    w[k] = (self.others or None, range(self.others))
        return w

    def argv(self, env):
        return [env.path("run"), str(self.ns), str(self.nn)]

    def call(self, env, m):
        m.check_eagle_run(env.path("run"), self.ns, self.nn)


class PGadget3(Presence):
    SCRIPT = PG3
    base = "snap"
    h5 = False
    end = "<"
    args = (2, 0, 1)        # last, first, step

    def nums(self):
        return list(range(self.args[1], self.args[0] + 1, self.args[2]))

    def count(self):
        return len(self.nums())

    def fname(self, s, i, k):
        if s == 0:
            return "run/snapdir_%03d/%s_%03d.%d%s" % (i, self.base, i, k, ".hdf5" if self.base == "500_dm" else "")
        return "run/groups_%03d/%s_%03d.%d" % (i, PSETS[s], i, k)

    def put(self, env, s, i, k, n):
        import os
        name = self.fname(s, i, k)
        E = self.end
        if s == 0 and self.h5:
            if not env.sym:
                os.makedirs(os.path.dirname(env.path(name)), exist_ok=True)
            with env.mod("h5py").File(env.path(name), "w") as g:
                h = g.create_group("Header")
                h.attrs["NumFilesPerSnapshot"] = n
                h.attrs["NumPart_ThisFile"] = np.zeros(6, "i4") if not env.sym else env.arr([np.int32(0)] * 6, "i4")
        elif s == 0:
            parts = [(E + "u4", [np.uint32(256)])]
            for nm, t, c in HDR:
                parts.append((E + t, [n if nm == "NumFilesPerSnapshot" else np.dtype(t).type(0)] * c))
            env.write_bin(name, parts + [b"\0" * (256 - HLEN), (E + "u4", [np.uint32(256)])])
        else:
            env.write_bin(name, [b"\0" * 20, (E + "i4", [n]), b"\0" * 12])

    def setup_files(self, env, inp):
        env.add_dir("run")
        for i in self.nums() + [3]:             # (number 3 is never asked for)
            for s in range(5):
                if s == self.active and i == self.nums()[inp["num"]]:
                    if inp["dir"] == 0:
                        for k in inp["there"]:
                            self.put(env, s, i, k, inp["n"] if k == 0 else np.int32(9))
                        if inp["first"] == 2:
                            env.write_text(self.fname(s, i, 0), "short")
                        if inp["first"] == 3:
                            import os
                            os.makedirs(os.path.dirname(env.path(self.fname(s, i, 0))), exist_ok=True) if not env.sym else None
                            env.mod("h5py").File(env.path(self.fname(s, i, 0)), "w").close()
                    elif inp["dir"] == 2:
                        env.add_dir(self.fname(s, i, 0).rsplit("/", 1)[0])
                elif self.others and not (inp["dir"] and i == self.nums()[inp["num"]] and (s > 0) == (self.active > 0)):
                    for k in range(self.others):
                        self.put(env, s, i, k, np.int32(self.others))

    def want(self, inp):
        w = {}
        for j, i in enumerate(self.nums()):
            for s in range(5):
                k = ("snapdir" if s == 0 else "groups", i, self.base if s == 0 else PSETS[s],
                     "snapshot" if s == 0 else PSETS[s])
                if s == self.active and j == inp["num"]:
                    w[k] = (inp["n"] if inp["first"] == 0 else None, inp["there"])
                elif inp["dir"] and j == inp["num"] and (s > 0) == (self.active > 0):
                    w[k] = (None, [])
                else:
                    w[k] = (self.others or None, range(self.others))
        return w

    def argv(self, env):
        a = [env.path("run"), self.base, str(self.args[0])]
        return a + [str(x) for x in self.args[1:]] if self.args[1:] != (0, 1) else a

    def call(self, env, m):
        m.check_pgadget3_run(env.path("run"), self.base, *self.args)


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(cls, name, w=5, **k):
        L.append((cls, dict(name=cls + "-" + name, w=w, **k)))
    for s in range(8):
        t = ESETS[s][3]
        add("Eagle", "%d" % s, active=s, ns=1 - t, nn=t, others=1, w=10)
        add("Eagle", "%d-bad" % s, active=s, ns=2 if not t else 1, nn=2 if t else 1, dirs=4, firsts=3, nmax=2, others=s % 3, w=20)
    add("Eagle", "main", active=0, ns=2, nn=1, main=True, nmax=2, w=10)
    add("Eagle", "main-snip", active=5, ns=0, nn=3, main=True, nmax=2, w=10)
    for s in range(5):
        add("PGadget3", "%d" % s, active=s, args=(0, 0, 1), w=10)
        add("PGadget3", "%d-swap" % s, active=s, args=(1, 1, 1), end=">", others=2, w=10)
        add("PGadget3", "%d-bad" % s, active=s, dirs=3, firsts=3, args=(2, 0, 2), nmax=2, others=s % 3, w=20)
    for b in ("snap", "500_dm", "500_gas"):
        add("PGadget3", "hdf5-" + b, active=0, base=b, h5=True, firsts=4, args=(1, 0, 1))
        add("PGadget3", "base-" + b, active=1, base=b, h5=b != "500_gas", firsts=3, args=(2, 1, 1), nmax=2)
    add("PGadget3", "main", active=0, main=True, args=(2, 0, 1), nmax=2)
    add("PGadget3", "main-step", active=3, main=True, args=(5, 1, 2), nmax=2)
    return L
