"""Interpreters whose wall clock is far off: an environment that preloads lib/clock.c."""
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def skewed(env, seconds):
    """env, with wall clocks off by so many seconds (times the rank, under mpirun)."""
    src = os.path.join(HERE, "clock.c")
    with open(src, "rb") as fh:
        key = hashlib.sha256(fh.read()).hexdigest()[:16]
    cache = os.path.join(os.path.dirname(HERE), ".build")
    lib = os.path.join(cache, "clock-%s.so" % key)
    if not os.path.exists(lib):
        os.makedirs(cache, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=cache, suffix=".so")
        os.close(fd)
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", src, "-o", tmp, "-ldl"])
        if r.returncode:
            os.remove(tmp)
            return env
        os.chmod(tmp, 0o755)
        os.rename(tmp, lib)
    pre = [p for p in env.get("LD_PRELOAD", "").split(":") if p]
    return dict(env, LD_PRELOAD=":".join(pre + [lib]), VERIF_CLOCK_OFFSET=str(seconds))
