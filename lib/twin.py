"""A second interpreter, with another hash seed, other contents of fresh memory and a wall clock that is years off, that answers cases given line by line: all in one
process, or each in a process of its own that has seen no other case (fork)."""
import importlib
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(1, os.path.dirname(HERE))

from lib import clock  # noqa: E402


class Twin:
    def __init__(self, check, hashseed, fork=False):
        env = clock.skewed(dict(os.environ, PYTHONHASHSEED=str(hashseed), MALLOC_PERTURB_="0"), 123456789)
        self.p = subprocess.Popen(["python3-vt", os.path.join(HERE, "twin.py"), check] + ["fork"] * fork, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)

    def ask(self, case, timeout=100):
        """The answer, or None where the interpreter died or hung."""
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except OSError:
            return None
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        line = self.p.stdout.readline() if r else ""
        if not line:
            self.p.kill()
            self.p.wait()
            return None
        return json.loads(line)

    def close(self):
        self.p.kill()
        self.p.wait()


def main():
    check = importlib.import_module("checks." + sys.argv[1])
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    fork = "fork" in sys.argv
    for line in iter(sys.stdin.readline, ""):
        if fork:
            pid = os.fork()
            if pid:
                if os.waitpid(pid, 0)[1]:
                    os._exit(1)
                continue
        try:
            ans = dict(ok=check.answer(json.loads(line)))
        except Exception as e:
            ans = dict(error="%s: %s" % (type(e).__name__, e))
        out.write(json.dumps(ans) + "\n")
        out.flush()
        if fork:
            os._exit(0)


if __name__ == "__main__":
    main()
