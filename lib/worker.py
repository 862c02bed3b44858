"""One search process: drives one check's generator against the built code.

Run by lib/runner.py; talks to it through files in a scratch directory:
  journal    the case being executed (so that a crash or a hang is attributable)
  out.json   the result
"""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(1, os.path.dirname(HERE))

from lib.common import Violation, HarnessError, dumps, digest  # noqa: E402


VERIFDIR = os.path.dirname(HERE)


def guarded(check, case, ctx):
    """Run a case; an exception out of the code under test, on an input for which the check
    expects none, is a violation, one out of the check itself is not."""
    try:
        return check.run(case, ctx)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        deepest = None
        tb = e.__traceback__
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if os.sep + "KMCLib" + os.sep in f:
                deepest = "code"
            elif f.startswith(os.path.join(VERIFDIR, "checks")) or f.startswith(os.path.join(VERIFDIR, "lib")):
                deepest = "check"
            tb = tb.tb_next
        if deepest == "code":
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("unexpected %s from %s (line %d): %s" % (
                type(e).__name__, os.path.basename(last.filename), last.lineno, str(e)[:300])) from e
        if isinstance(e, (LookupError, TypeError, ValueError, ArithmeticError, SyntaxError)):
            # What the code gave back has not the form that the check relies on (on the unchanged tree it has).
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("results that make no sense: %s in %s (line %d): %s" % (
                type(e).__name__, os.path.basename(last.filename), last.lineno, str(e)[:300])) from e
        raise


class Recorder:
    def __init__(self, out, journal, budget):
        self.out, self.journal_path = out, journal
        self.jf = open(journal, "w")
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.failures = []          # (len, case, message)
        self.first_failure = None
        self.stats = {}
        self.slowest = 0.0
        self.t0 = time.time()
        self.budget = budget
        self.lock = threading.Lock()

    def journal(self, case):
        self.jf.seek(0)
        self.jf.truncate()
        self.jf.write(dumps(case))
        self.jf.flush()

    def fail(self, case, msg):
        if self.first_failure is None:
            self.first_failure = time.time()
        self.failures.append((len(dumps(case)), case, msg))
        self.failures = [min(self.failures, key=lambda f: f[0]), self.failures[-1]][:2]

    def ok(self, case, info):
        self.evals += 1
        info = info or {}
        if info.get("nontrivial"):
            d = digest(info.get("key", case))
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                if len(self.samples) < 3:
                    s = dumps(case)
                    self.samples.append(json.loads(s) if len(s) < 6000 else s[:6000])
        for k, v in (info.get("stats") or {}).items():
            self.stats[k] = self.stats.get(k, 0) + v

    def dump(self, status, error=None):
        with self.lock:
            best = None
            if self.failures:
                best = min(self.failures, key=lambda f: f[0])
            doc = dict(status=status, error=error, evaluations=self.evals,
                       nontrivial=sorted(self.nontrivial), samples=self.samples, stats=self.stats,
                       failure=None if best is None else dict(case=best[1], message=best[2]),
                       wall=time.time() - self.t0, slowest=self.slowest)
            tmp = self.out + ".tmp"
            with open(tmp, "w") as fh:
                json.dump(doc, fh)
            os.replace(tmp, self.out)


def run_forked(check, case, ctx, timeout):
    """Run one case in a child process; returns (info, None) or (None, message)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                doc = {"info": guarded(check, case, ctx)}
                doc["info"] = {k: v for k, v in (doc["info"] or {}).items()}
            except Violation as e:
                doc = {"violation": str(e)}
            except BaseException:
                doc = {"harness": traceback.format_exc()}
            with os.fdopen(w, "w") as fh:
                json.dump(doc, fh)
        except BaseException:
            code = 99
        os._exit(code)
    os.close(w)
    with os.fdopen(r) as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig == signal.SIGALRM:
            return None, "the code did not finish this case within %d s" % timeout
        if sig == signal.SIGKILL:
            raise HarnessError("child was killed (memory?)")
        return None, "the code crashed with signal %d (%s)" % (sig, signal.Signals(sig).name)
    if os.WEXITSTATUS(st) != 0 or not data:
        return None, "the process running the code ended abnormally with status %d" % os.WEXITSTATUS(st)
    doc = json.loads(data)
    if "violation" in doc:
        return None, doc["violation"]
    if "harness" in doc:
        raise HarnessError(doc["harness"])
    return doc["info"], None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--index", type=int, default=0)
    ap.add_argument("--dir", required=True)
    ap.add_argument("--fork", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=300.0)
    ap.add_argument("--examples", type=int, default=0)
    a = ap.parse_args()

    check = importlib.import_module("checks." + a.check.lower())
    rec = Recorder(os.path.join(a.dir, "out.json"), os.path.join(a.dir, "journal"), a.budget)
    ctx = dict(dir=a.dir, tier=a.tier, index=a.index, scratch=a.dir)
    os.chdir(a.dir)
    # The code under test prints; keep that out of the way.
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if getattr(check, "setup", None):
        check.setup(ctx)

    case_timeout = getattr(check, "CASE_TIMEOUT", 120)

    def execute(case):
        rec.journal(case)
        start = time.time()
        if a.fork:
            info, msg = run_forked(check, case, ctx, case_timeout)
            if msg is not None:
                raise Violation(msg)
        else:
            info = guarded(check, case, ctx)
        took = time.time() - start
        if took > 10 and os.environ.get("KMC_VERIF_SLOW"):
            with open(os.environ["KMC_VERIF_SLOW"], "a") as fh:
                fh.write("%.1f %s %s\n" % (took, a.check, dumps(case)))
        rec.slowest = max(rec.slowest, took)
        rec.ok(case, info)

    if a.replay:
        with open(a.replay) as fh:
            case = json.load(fh)
        case = case.get("case", case)
        try:
            execute(case)
        except Violation as e:
            rec.fail(case, str(e))
            rec.dump("violation")
            return 0
        except BaseException:
            rec.dump("error", traceback.format_exc())
            return 0
        rec.dump("ok")
        return 0

    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, Verbosity

    # Hypothesis repeats parts of earlier cases within new ones: mostly the same large models
    # again, as these are made from a few numbers.  All cases drawn anew are worth more here.
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        if hasattr(ConjectureRunner, "generate_mutations_from"):
            ConjectureRunner.generate_mutations_from = lambda self, data: None
    except ImportError:
        pass

    n = a.examples or check.EXAMPLES[a.tier]
    strat = check.strategy(a.tier)
    shrink_cap = 40.0 if a.tier == "quick" else 240.0

    class Stop(BaseException):
        pass

    harness = []

    # Ends a shrink that takes too long, with the smallest failing case so far.
    def watchdog():
        while True:
            time.sleep(0.5)
            if rec.first_failure and time.time() - rec.first_failure > shrink_cap:
                rec.dump("violation")
                os._exit(0)

    threading.Thread(target=watchdog, daemon=True).start()

    def body(case):
        if rec.first_failure is None and time.time() - rec.t0 > a.budget:
            raise Stop()
        try:
            execute(case)
        except Violation as e:
            rec.fail(case, str(e))
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            harness.append((dumps(case), traceback.format_exc()))
            raise Stop()

    test = given(strat)(body)
    test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet)(test)
    test = hseed(a.seed * 1000003 + a.index * 7919 + 17)(test)
    random.seed(a.seed * 31 + a.index)
    try:
        fixed = getattr(check, "fixed_cases", None)
        if fixed is not None:
            for k, case in enumerate(fixed(a.tier)):
                if k % max(1, ctx.get("workers", 8)) == a.index % 8:
                    body(case)
        if n > 0:
            test()
        rec.dump("ok")
    except Stop:
        if harness:
            rec.dump("error", "case: %s\n%s" % harness[0])
        else:
            rec.dump("ok")
    except Violation:
        rec.dump("violation")
    except BaseException:
        if rec.failures:
            # e.g. a failure that does not reproduce: still a failing run of the real code.
            rec.dump("flaky", traceback.format_exc())
        else:
            rec.dump("error", traceback.format_exc())
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stderr.flush()
    os._exit(rc)
