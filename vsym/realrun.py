"""Runs harness instances against the real modules (possibly under mpirun).

usage: realrun.py JOB.pkl   (JOB: prop, instances=[{cls, case, values}], outdir)
"""
import os
import pickle
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))


def main():
    with open(sys.argv[1], "rb") as f:
        job = pickle.load(f)
    import importlib
    from vsym import harness
    mod = importlib.import_module("vsym.props." + job["prop"])
    comm = None
    r = 0
    if job["mpi"]:
        from mpi4py import MPI
        comm = MPI.COMM_WORLD
        if job.get("strict_send"):
            class C(MPI.Intracomm):
                def Send(self, *a, **k):
                    return self.Ssend(*a, **k)
            comm = C(MPI.COMM_WORLD)
        r = comm.Get_rank()
    out = job["outdir"]
    for i, ins in enumerate(job["instances"]):
        h = getattr(mod, ins["cls"])(ins["case"])
        v = harness.RealVars(ins["values"])
        inp = h.inputs(v)
        tmp = os.path.join(out, "tmp%d" % i)
        if r == 0:
            os.makedirs(tmp, exist_ok=True)
        env = harness.RealEnv(tmp)
        hr = None if h.idle else r
        try:
            if comm is not None:
                comm.Barrier()
            if r == 0:
                h.setup_files(env, inp)
            if comm is not None:
                comm.Barrier()

            def run(c, cr):
                nonlocal hr
                hr = cr
                if h.h5v is None:
                    return h.rank(env, c, cr, inp)
                import h5py
                old = h5py.version.hdf5_version_tuple
                h5py.version.hdf5_version_tuple = tuple(h.h5v)
                try:
                    return h.rank(env, c, cr, inp)
                finally:
                    h5py.version.hdf5_version_tuple = old
            res = ("ok", harness.normalise(h.on_comm(comm, run)[1]))
        except BaseException as e:      # noqa
            res = ("exc", type(e).__name__, str(e)[:500], traceback.format_exc()[-2000:])
        if hr is not None:
            with open(os.path.join(out, "%d.%d.tmp" % (i, hr)), "wb") as f:
                pickle.dump(res, f, 5)
            os.rename(os.path.join(out, "%d.%d.tmp" % (i, hr)), os.path.join(out, "%d.%d.pkl" % (i, hr)))
        if res[0] == "exc":
            # other ranks may be stuck: end the job here
            if comm is not None and comm.Get_size() > 1:
                import time
                time.sleep(0.5)
                os._exit(3)
        if r == 0 and not job.get("keep"):
            pass
    if comm is not None:
        comm.Barrier()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
