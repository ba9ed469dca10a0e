"""consistency_check/hash: hashes of all files of a directory tree."""
import fnmatch
import itertools
import os
import sys
import types

from .common import *
from .. import fakempi

BOUNDS = ("directory trees with up to 4 directories (nested, empty ones included) and 5 files, each of them present, "
          "missing or unreadable; one file of any size from 0 to 20 MiB + 3 bytes (the reads are 10 MiB); 1-3 MPI "
          "ranks (thorough 4), requests of the other ranks seen by rank 0 in any order and 0, 1, 3 or 12 probes after they were made; "
          "8 include and exclude lists; data bases holding any subset of the right rows and rows of other runs")
ASSUMPTIONS = ["hashes are modelled as an injective function of the bytes hashed",
               "files do not change during the run; symbolic links other than dangling ones are not modelled",
               "extended attributes go to a stand-in for the xattr module, which is not installed here"]
SCRIPT = "consistency_check/hash/hash_dirs_mpi.py"
FILES = ["a.dat", "b.txt", "d1/c.dat", "d1/x/a.dat", "e/z"]
DIRS = ["d1/x", "e"]
OLD_ARGV = list(sys.argv)
MIB = 1024 * 1024


class Hash(H):
    needs_files = True
    P = 2
    files = tuple(range(len(FILES)))    # files which may exist
    states = 2                          # of a file: there, missing, unreadable
    big = 0                             # file of symbolic size
    outfile = "out/all.txt"
    dirfile = None
    stale = False                       # output files of an earlier run are there
    include = None
    exclude = None
    attrs = False
    kind = "md5"
    db = None                           # None, "new", "old" (rows of an earlier run), "resume"
    delays = (0, 1, 3, 12)              # probes until a message is seen
    main = False
    base = "base"
    relative = False                    # paths given relative to the working directory (also: "base", "out")
    given = None                        # how base is spelled

    def fs(self, v):
        from .. import fakeio
        return fakeio.FS(tokens=True)

    def inputs(self, v):
        self.store = {}
        st, size = {}, {}
        for i in self.files:
            s = v.choice("f%d" % i, self.states) if self.states > 1 else 0
            if s != 1:
                st[FILES[i]] = s
                size[FILES[i]] = v.int("size", 0, 20 * MIB + 3) if i == self.big else 5 * i + 1
        cached = []
        if self.db == "resume":
            cached = [f for i, f in enumerate(sorted(st)) if v.choice("cached%d" % i, 2)]
            if not cached:
                cached = ["gone"]
        elif self.db == "old":
            cached = sorted(st)
        return dict(st=st, size=size, cached=cached, vals=getattr(v, "vals", None))

    def sched(self, v):
        """Every message is seen by rank 0 after a chosen number of probes; if there are several, any of them."""
        seen, count = {}, {}

        def f(k, srcs, must=False):
            for x in srcs:
                if x not in seen:
                    i = count[x] = count.get(x, -1) + 1
                    seen[x] = k + self.delays[v.choice("delay%d.%d" % (x, i), len(self.delays))]
            now = [x for x in srcs if seen[x] <= k] or (srcs[:1] if must else [])
            c = now[v.choice("which%d" % k, len(now)) if len(now) > 1 else 0] if now else None
            v.int("probe%d" % k, c or 0, c or 0)
            if c is not None:
                del seen[c]
            return c
        return f

    def xattr_mod(self):
        store = self.store
        m = types.ModuleType("xattr")

        class xattr:
            def __init__(self, name):
                self.name = name

            def __setitem__(self, k, val):
                store[(self.name, k)] = val

            def set(self, k, val):
                self[k] = val
        m.xattr = xattr
        m.setxattr = lambda n, k, val, *a: store.__setitem__((n, k), val)
        return m

    def overrides(self):
        return {"xattr": self.xattr_mod()}

    def setup_files(self, env, inp):
        env.add_dir(self.base)
        for d in DIRS:
            env.add_dir(self.base + "/" + d)
        env.add_dir("out")
        for f, s in inp["st"].items():
            env.add_blob(self.base + "/" + f, inp["size"][f], s == 2)
        if self.stale:
            for o in self.outputs():
                env.write_text(o, "# old\n")
        if self.db in ("old", "resume"):
            con = env.mod("sqlite3").connect(env.path("h.db"))
            con.execute("create table hashes (basedir text, path text, hash_type text, hash text)")
            for f in inp["cached"]:
                con.execute("insert into hashes values(?,?,?,?)", (env.path(self.base), f, self.kind, "cached_" + f))
            # other trees and other kinds of hash
            for f in FILES:
                con.execute("insert into hashes values(?,?,?,?)", (env.path(self.base), f, "sha256", "other1"))
                con.execute("insert into hashes values(?,?,?,?)", (env.path("elsewhere"), f, self.kind, "other2"))
            con.commit()
            con.close()

    def dirs(self):
        return [""] + sorted({"/".join(d.split("/")[:k + 1]) for d in DIRS for k in range(d.count("/") + 1)})

    def outputs(self):
        """Output files, relative to the scratch directory."""
        o = [os.path.normpath(self.outfile)] if self.outfile else []
        if self.dirfile:
            o += [os.path.normpath(os.path.join(self.base, d, self.dirfile)) for d in self.dirs()]
        return o

    def rank(self, env, comm, r, inp):
        opened = []

        def op(name, mode="r", *a, **k):
            if "r" in mode and "b" in mode:
                opened.append(name)
            return env.open(name, mode, *a, **k)
        restore = []
        if not env.sym:
            from mpi4py import MPI
            sys.modules["xattr"] = self.xattr_mod()
            vals = {int(k[5:]): x for k, x in inp["vals"].items() if k.startswith("probe")}
            last = max(vals) if vals else -1
            n = [0]

            class Scheduled(MPI.Intracomm):
                def Iprobe(self, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
                    k = n[0]
                    n[0] += 1
                    if k > last:
                        return MPI.Intracomm.Iprobe(self, source, tag, status)
                    if not vals.get(k):
                        return False
                    self.Probe(vals[k], tag, status)
                    return True
                iprobe = Iprobe
            restore = [MPI.COMM_WORLD, MPI.Finalize, os.getcwd()]
            MPI.COMM_WORLD = Scheduled(comm)
            MPI.Finalize = lambda: None
            os.chdir(env.tmp)
        p = (lambda x: x) if self.relative is True else env.path
        pb = (lambda x: x) if self.relative in (True, "base") else env.path
        po = (lambda x: x) if self.relative in (True, "out") else env.path
        base, out = pb(self.given or self.base), po(self.outfile) if self.outfile else None
        kw = dict(open=op, print=lambda *a, **k: None)
        try:
            if self.main:
                sys.argv = ["hash_dirs_mpi.py"] + self.argv(p, base, out)
                try:
                    env.script(SCRIPT, "__main__", kw)
                except fakempi.MPIFinalized:
                    pass
                except fakempi.MPIAbort:
                    raise RuntimeError("MPI_Abort called")
                finally:
                    sys.argv = OLD_ARGV
            else:
                m = env.script(SCRIPT, "hash_dirs_mpi", kw)
                opt = {}
                if self.db:
                    opt["dbfile"] = env.path("h.db")
                if self.db == "resume":
                    opt["resume"] = True
                m.recursive_hash(base, self.include, self.exclude, per_dir_file=self.dirfile,
                                 all_dirs_file=out, set_attrs=self.attrs,
                                 hash_type=self.kind, **opt)
                m.dirlist = None
        finally:
            if restore:
                MPI.COMM_WORLD, MPI.Finalize = restore[:2]
                os.chdir(restore[2])
        comm.Barrier()
        strip = lambda s: os.path.relpath(s, os.path.normpath(env.path("."))) if s.startswith("/") else s  # noqa
        o = dict(opened=[os.path.normpath(strip(x)) for x in opened],
                 attrs={(os.path.normpath(strip(n)), k): x for (n, k), x in self.store.items()})
        if not env.sym:
            self.store.clear()
        if r == 0:
            o["ok"] = {}
            o["text"] = {n: self.parse(env.read_text(n)) for n in self.outputs() if env.exists(n)}
            if self.db:
                con = env.mod("sqlite3").connect(env.path("h.db"))
                o["rows"] = sorted(con.execute("select basedir, path, hash_type, hash from hashes"))
                con.close()
            o["base"] = base
            toks = {(x[0], os.path.join(os.path.dirname(n) if n != os.path.normpath(self.outfile or "?") else self.base,
                                        x[1])) for n, t in o["text"].items() for x in t}
            toks |= {(row[3], os.path.join(self.base, row[1])) for row in o.get("rows", ())}
            if self.attrs:
                toks |= {(x, n) for (n, k), x in o["attrs"].items()}
            for t, n in toks:
                n = os.path.normpath(n)
                f = os.path.relpath(n, self.base)
                if inp["st"].get(f) == 0:
                    o["ok"][(t, f)] = env.blob_hash_ok(t, self.kind, n)
            self.okf = None
        if not env.sym:
            o["attrs_ok"] = {(n, k): env.blob_hash_ok(x, self.kind, n) for (n, k), x in o["attrs"].items()
                             if inp["st"].get(os.path.relpath(n, self.base)) == 0}
        elif r == 0:
            o["attrs_ok"] = {(n, k): env.blob_hash_ok(x, self.kind, n) for (n, k), x in o["attrs"].items()
                             if inp["st"].get(os.path.relpath(n, self.base)) == 0}
        return o

    def argv(self, p, base, out):
        a = [base]
        if self.outfile:
            a += ["--outfile", out]
        if self.dirfile:
            a += ["--dirfile=" + self.dirfile]
        if self.attrs:
            a += ["--attrs"]
        if self.kind != "md5":
            a += ["--type", self.kind]
        for n in ("include", "exclude"):
            if getattr(self, n) is not None:
                a += ["--" + n, ",".join(getattr(self, n))]
        if self.db:
            a += ["--database", p("h.db")]
        if self.db == "resume":
            a += ["--resume"]
        return a

    @staticmethod
    def parse(text):
        out = []
        for line in text.split("\n"):
            if line and not line.startswith("#"):
                out.append(tuple(line.split(" ", 1)))
        return out

    def wanted(self, inp):
        """Files to hash."""
        outs = set(self.outputs())
        there = set(inp["st"])
        if self.stale:
            there |= {os.path.relpath(o, self.base) for o in outs if o.startswith(self.base + "/")}
        w = []
        for f in sorted(there):
            if os.path.normpath(os.path.join(self.base, f)) in outs:
                continue
            if self.include is not None and not any(fnmatch.fnmatch(f, os.path.normpath(x)) for x in self.include):
                continue
            if self.exclude is not None and any(fnmatch.fnmatch(f, os.path.normpath(x)) for x in self.exclude):
                continue
            w.append(f)
        return w

    def good(self, chk, inp, o, tok, f, what):
        if self.db == "resume" and f in inp["cached"]:
            if tok != "cached_" + f:
                chk.fail("%s: hash of %s in the data base not used" % (what, f))
        elif inp["st"][f] == 2:
            if tok != "UNREADABLE":
                chk.fail("%s: unreadable file %s has a hash" % (what, f))
        else:
            c = o["ok"].get((tok, f), False)
            chk.that(c, "%s: wrong hash of %s" % (what, f))

    def oracle(self, chk, inp, outs):
        o = outs[0]
        w = self.wanted(inp)
        cached = inp["cached"] if self.db == "resume" else []
        if self.outfile:
            n = os.path.normpath(self.outfile)
            if n not in o["text"]:
                chk.fail("output file not written")
            t = o["text"][n]
            if [x[1] for x in t] != w:
                chk.fail("files listed in the output: %s, expected %s" % ([x[1] for x in t], w))
            for tok, f in t:
                self.good(chk, inp, o, tok, f, "output")
        if self.dirfile:
            for d in self.dirs():
                n = os.path.normpath(os.path.join(self.base, d, self.dirfile))
                if n not in o["text"]:
                    chk.fail("no list of hashes in %r" % d)
                want = [f for f in w if os.path.dirname(f) == d]
                if [x[1] for x in o["text"][n]] != [os.path.basename(f) for f in want]:
                    chk.fail("files listed in %r: %s, expected %s" % (d, o["text"][n], want))
                for (tok, _), f in zip(o["text"][n], want):
                    self.good(chk, inp, o, tok, f, "directory")
        cnt = {}
        for x in outs:
            for f in x["opened"]:
                cnt[f] = cnt.get(f, 0) + 1
        for f, k in sorted(cnt.items()):
            rel = os.path.relpath(f, self.base)
            if rel in cached or rel not in w:
                chk.fail("%s was read" % rel)
            if k > 1:
                chk.fail("%s was read %d times" % (rel, k))
        if self.db:
            rows = [r for r in o["rows"] if not r[3].startswith(("cached_", "other"))]
            want = [f for f in w if f not in cached and inp["st"][f] == 0]
            if [r[:3] for r in rows] != [(o["base"], f, self.kind) for f in want]:
                chk.fail("new rows of the data base: %s, expected %s" % (rows, want))
            for r in rows:
                chk.that(o["ok"].get((r[3], r[1]), False), "data base: wrong hash of %s" % r[1])
            old = sorted(r for r in o["rows"] if r[3].startswith(("cached_", "other")))
            if self.db != "resume":
                if old:
                    chk.fail("rows of an earlier run kept: %s" % old)
            elif len(old) != len(cached) + 2 * len(FILES) or \
                    sorted(r[1] for r in old if r[3].startswith("cached_")) != sorted(cached):
                chk.fail("rows of the earlier run changed: %s" % old)
        if self.attrs:
            at = {}
            for x in outs:
                at.update(x["attrs"])
            want = sorted((os.path.join(self.base, f), "user.checksum." + self.kind) for f in w
                          if f in cached or inp["st"][f] == 0)
            if sorted(at) != want:
                chk.fail("attributes set: %s, expected %s" % (sorted(at), want))
            ok = {}
            for x in outs:
                ok.update(x.get("attrs_ok", {}))
            for k in sorted(at):
                f = os.path.relpath(k[0], self.base)
                if f in cached:
                    if at[k] != "cached_" + f:
                        chk.fail("attribute of %s is %s" % (f, at[k]))
                else:
                    chk.that(ok[k], "attribute of %s" % f)


D4 = Hash.delays


def cases(tier):
    L = []
    T = tier == "thorough"

    def add(name, w=5, **k):
        L.append(("Hash", dict(name=name, w=w, **k)))
    for P in (1, 2, 3) + ((4,) if T else ()):
        add("size-%d" % P, P=P, states=1, delays=(0, 2, 9) if P < 3 else (0, 9), w=20 * P)
    for P in (1, 2, 3):
        add("order-%d" % P, P=P, states=1, big=None, delays=D4 if P < 3 else (0, 2, 9), w=30 * P,
            files=(0, 2, 3) if P > 2 else (0, 1, 2, 3))
    add("states-1", P=1, states=3, big=None, delays=(0, 5), w=40)
    add("states-2", P=2, states=3, big=None, delays=(0, 5), files=(0, 2, 3), w=40)
    add("big2", P=2, states=1, big=2, delays=(0, 9), w=20)
    add("dirfile", dirfile="SUMS", states=2, big=None, delays=(0, 5), w=20)
    add("dirfile-stale", dirfile="SUMS", stale=True, states=1, big=None, delays=(0, 9), outfile="base/d1/all.txt", w=20)
    add("stale-dot", dirfile="./a.dat", stale=True, P=1, states=2, big=None, delays=(0, 5), outfile="base/./b.txt")
    add("noout", dirfile="SUMS", outfile=None, states=1, big=None, delays=(0, 9))
    inc = [["*.dat"], ["d1/*"], ["./d1/*"], ["b*", "e/*"], ["nothing"], ["*"], ["d1/c.dat", "d1/x"], [""]]
    for i, p in enumerate(inc):
        add("include%d" % i, include=p, P=1, states=1, big=None, delays=(0, 5))
        add("exclude%d" % i, exclude=p, P=1, states=1, big=None, delays=(0, 5))
    add("both", include=["*.dat"], exclude=["d1/x/*", "a*"], P=2, states=1, big=None, delays=(0, 9))
    add("attrs", attrs=True, kind="sha1", states=3, files=(0, 2, 4), big=0, delays=(0, 5), w=30)
    for P in (1, 2):
        add("db-new-%d" % P, P=P, db="new", states=3, files=(0, 2, 3), big=None, delays=(0, 5), w=30)
        add("db-old-%d" % P, P=P, db="old", states=1, big=None, delays=(0, 5))
        add("db-resume-%d" % P, P=P, db="resume", states=3 if P == 1 else 1, files=(0, 2, 3), big=None, delays=(0, 5), w=60)
    add("resume-all", P=2, db="resume", dirfile="SUMS", attrs=True, states=1, big=None, delays=(0, 5), w=30)
    add("relative", relative=True, states=1, big=None, delays=(0, 5), P=2, dirfile="SUMS", outfile="base/all.txt", stale=True)
    for rel in (False, True, "base", "out"):
        for i, g in enumerate(("base", "./base", "base/", "base/e/..")):
            add("rel%s-%d" % (rel, i), relative=rel, given=g, states=1, big=None, delays=(0, 5), P=2, db="new", w=2,
                outfile="base/d1/../d1/all.txt", stale=True, dirfile="SUMS" if i == 0 else None)
    for P in (1, 2):
        add("main-%d" % P, P=P, main=True, states=1, big=None, delays=(0, 5))
        add("main-opts-%d" % P, P=P, main=True, states=1, big=None, delays=(0, 5), dirfile="SUMS", stale=True, kind="sha1",
            include=["*.dat", "b*"], exclude=["d1/x/*"], db="new", attrs=True, outfile="base/all")
        add("main-resume-%d" % P, P=P, main=True, states=1, big=None, delays=(0, 5), db="resume", files=(0, 2), w=10)
    add("main-inc", P=2, main=True, states=1, big=None, delays=(0, 5), include=[""], exclude=["b*", "e/*"])
    add("main-exc", P=2, main=True, states=1, big=None, delays=(0, 5), exclude=["b*", "e/*"])
    add("samename", P=2, states=1, big=None, delays=(0, 5), outfile="out/a.dat", stale=True)
    if T:
        add("order-3-all", P=3, states=1, big=None, delays=D4, w=500)
        add("order-4", P=4, states=1, big=None, delays=(0, 5), w=500)
        add("states-all", P=2, states=3, big=None, delays=(0, 9), w=800)
    return L
