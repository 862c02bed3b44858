"""Cases answered by a group of processes under mpirun.

The parent writes DIR/in.<k>.json; every rank answers with DIR/out.<k>.<rank>.json."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(1, os.path.dirname(HERE))

from lib import clock  # noqa: E402


def _die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Group:
    def __init__(self, check, n, base, py, skew=0):
        self.n, self.k = n, 0
        self.dir = tempfile.mkdtemp(prefix="mpi%d-" % n, dir=base)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_"))}
        env["PYTHONPATH"] = py + os.pathsep + os.path.dirname(HERE)
        # One host, shared memory or loopback only; session files in the scratch directory (short, for socket names).
        env.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", TMPDIR=self.dir,
                   OMPI_MCA_orte_tmpdir_base=self.dir, OMPI_MCA_btl="self,vader", OMPI_MCA_pml="ob1",
                   OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_btl_vader_backing_directory=self.dir,
                   OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
                   OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_plm="isolated", OMPI_MCA_oob_tcp_if_include="lo",
                   OMPI_MCA_plm_rsh_agent="/bin/true", PRTE_MCA_plm="isolated")
        if skew:
            env = clock.skewed(env, skew)
        self.err = open(os.path.join(self.dir, "err"), "w")
        self.p = subprocess.Popen(["mpirun", "-np", str(n), "--oversubscribe", "python3-vt", os.path.join(HERE, "mpisrv.py"),
                                   check, self.dir], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=self.err, preexec_fn=_die_with_parent)

    def ask(self, case, timeout):
        """The answers of the ranks, or a text saying how they failed to answer."""
        self.k += 1
        name = os.path.join(self.dir, "in.%d.json" % self.k)
        with open(name + ".tmp", "w") as fh:
            json.dump(case, fh)
        os.rename(name + ".tmp", name)
        end = time.time() + timeout
        outs = [os.path.join(self.dir, "out.%d.%d.json" % (self.k, r)) for r in range(self.n)]
        while True:
            there = [os.path.exists(o) for o in outs]
            if all(there):
                break
            if self.p.poll() is not None:
                self.err.flush()
                with open(self.err.name, errors="replace") as fh:
                    txt = fh.read()
                return "the processes ended with status %d: %s" % (self.p.returncode, txt[-300:])
            if time.time() > end:
                return "process %s of %d did not finish within %d s" % (
                    [r for r in range(self.n) if not there[r]], self.n, timeout)
            time.sleep(0.002)
        got = []
        for o in outs:
            with open(o) as fh:
                got.append(json.load(fh))
            os.remove(o)
        os.remove(name)
        return got

    def close(self):
        with open(os.path.join(self.dir, "quit"), "w"):
            pass
        try:
            self.p.send_signal(signal.SIGTERM)
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def main():
    check, where = sys.argv[1:3]
    # Ends with whoever started this.
    _die_with_parent()
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    mod = importlib.import_module("checks." + check)
    from KMCLib import MPICommons
    rank = MPICommons.myRank()
    k = 1
    while True:
        name = os.path.join(where, "in.%d.json" % k)
        while not os.path.exists(name):
            if not os.path.isdir(where) or os.path.exists(os.path.join(where, "quit")):
                os._exit(0)
            time.sleep(0.001)
        with open(name) as fh:
            case = json.load(fh)
        try:
            ans = dict(ok=mod.answer(case, rank, where))
        except Exception as e:
            import traceback
            ans = dict(error="%s: %s" % (type(e).__name__, e), where=traceback.format_exc()[-1500:])
        out = os.path.join(where, "out.%d.%d.json" % (k, rank))
        with open(out + ".tmp", "w") as fh:
            json.dump(ans, fh)
        os.rename(out + ".tmp", out)
        k += 1


if __name__ == "__main__":
    main()
