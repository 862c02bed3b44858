"""Build, search, report: the driver behind every command in MANIFEST.json."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from lib import build as B          # noqa: E402
from lib.common import dumps, digest  # noqa: E402

PY = "python3-vt"
ASAN_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
NWORK = 8


class Meta:
    """The upper-case constants of a check module, read without importing it (importing needs
    the code under test)."""

    def __init__(self, prop):
        import ast
        with open(os.path.join(VERIF, "checks", prop.lower() + ".py")) as fh:
            tree = ast.parse(fh.read())
        for node in tree.body:
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], "id", "").isupper():
                try:
                    setattr(self, node.targets[0].id, ast.literal_eval(node.value))
                except ValueError:
                    pass


def env_for(variant, py):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e["PYTHONPATH"] = py + os.pathsep + VERIF
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[v] = "1"
    # Memory is not zero to start with: what is read without being set is not what it should be.
    e["MALLOC_PERTURB_"] = "165"
    if variant == "asan":
        e["LD_PRELOAD"] = ASAN_LIB
        e["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=1:handle_abort=0:"
                             "allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=90")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    return e


class Worker:
    def __init__(self, check, args, variant, py, base, tag):
        self.dir = tempfile.mkdtemp(prefix="w%s-" % tag, dir=base)
        self.errpath = os.path.join(self.dir, "stderr")
        self.err = open(self.errpath, "w")
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), check, "--dir", self.dir] + args,
            cwd=self.dir, env=env_for(variant, py), stdout=subprocess.DEVNULL, stderr=self.err,
            start_new_session=True)
        self.hung = False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def journal_case(self):
        try:
            with open(os.path.join(self.dir, "journal")) as fh:
                return json.load(fh)
        except Exception:
            return None

    def journal_age(self):
        try:
            return time.time() - os.path.getmtime(os.path.join(self.dir, "journal"))
        except OSError:
            return 0.0

    def out(self):
        try:
            with open(os.path.join(self.dir, "out.json")) as fh:
                return json.load(fh)
        except Exception:
            return None

    def stderr(self):
        self.err.flush()
        with open(self.errpath, errors="replace") as fh:
            return fh.read()[-6000:]


def wait(workers, case_timeout, deadline):
    """Wait for all; kill one that has been on a single case for far too long."""
    live = list(workers)
    while live:
        for w in list(live):
            if w.p.poll() is not None:
                live.remove(w)
                continue
            if w.journal_age() > case_timeout + 30:
                w.hung = True
                w.kill()
                w.p.wait()
                live.remove(w)
            elif time.time() > deadline:
                w.kill()
                w.p.wait()
                live.remove(w)
        time.sleep(0.05)


def crash_text(w):
    rc = w.p.returncode
    txt = w.stderr()
    head = "signal %d" % -rc if rc < 0 else "status %d" % rc
    for line in txt.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line:
            return line.strip()[:500]
    return head


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as fh:
        doc = json.load(fh)
    return [f for f in doc["findings"] if f["property"] == prop and f["status"] == "known"]


def search(prop, tier, seed):
    check = Meta(prop)
    t0 = time.time()
    variants = [check.VARIANT] if isinstance(check.VARIANT, str) else list(check.VARIANT)
    extra = getattr(check, "THOROUGH_VARIANTS", [])
    if tier == "thorough":
        variants += [v for v in extra if v not in variants]
    need = list(dict.fromkeys(variants + list(getattr(check, "NEEDS", []))))
    pys = {v: B.build(v) for v in need}
    t_build = time.time() - t0
    os.environ["KMC_PY_BUILDS"] = json.dumps(pys)
    base = tempfile.mkdtemp(prefix="kmcverif-")
    case_timeout = getattr(check, "CASE_TIMEOUT", 120)
    budget = {"quick": 240.0, "thorough": 3000.0}[tier]
    fails, errors, docs, findings = [], [], [], []
    try:
        # Listed findings: replay each and say whether it is still there.
        for f in known_findings(prop):
            rp = os.path.join(VERIF, f["replay"])
            got = replay_file(prop, rp, pys[variants[0]], variants[0], base, case_timeout)
            if got is not None:
                findings.append((f, got))
        for variant in variants:
            workers = []
            for i in range(getattr(check, "WORKERS", NWORK)):
                workers.append((i, Worker(prop, ["--tier", tier, "--seed", str(seed), "--index", str(i),
                                                 "--budget", str(budget)],
                                          variant, pys[variant], base, str(i))))
            wait([w for _, w in workers], case_timeout, time.time() + budget * 1.5 + 400)
            for i, w in workers:
                doc = w.out()
                if doc is None:
                    case = w.journal_case()
                    if w.hung:
                        fails.append(dict(case=case, variant=variant, forked=True,
                                          message="the code did not finish this case within %d s" % case_timeout))
                    elif case is None:
                        errors.append("worker %d produced nothing (status %s)\n%s" % (i, w.p.returncode, w.stderr()))
                    elif w.p.returncode == -9:
                        errors.append("worker %d was killed\n%s" % (i, w.stderr()))
                    else:
                        msg = "the code crashed: " + crash_text(w)
                        if any(f.get("forked") for f in fails):
                            continue
                        # Again with one process per case, so that it can be shrunk.
                        w2 = Worker(prop, ["--tier", tier, "--seed", str(seed), "--index", str(i), "--fork",
                                           "--budget", "150"], variant, pys[variant], base, "f%d" % i)
                        wait([w2], case_timeout, time.time() + 400)
                        d2 = w2.out()
                        if d2 and d2.get("failure"):
                            fails.append(dict(d2["failure"], variant=variant, forked=True))
                            fails[-1]["message"] += " / first seen as: " + msg
                        else:
                            fails.append(dict(case=case, message=msg, variant=variant, forked=True))
                    continue
                docs.append(doc)
                if doc["status"] == "error":
                    errors.append(doc["error"])
                elif doc["failure"]:
                    fails.append(dict(doc["failure"], variant=variant, flaky=doc["status"] == "flaky"))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return check, dict(fails=fails, errors=errors, docs=docs, findings=findings, t0=t0, t_build=t_build,
                       variants=variants)


def replay_file(prop, path, py, variant, base, case_timeout):
    """None if the case passes, otherwise the message."""
    w = Worker(prop, ["--replay", path, "--fork"], variant, py, base, "r")
    wait([w], case_timeout, time.time() + case_timeout + 60)
    doc = w.out()
    if doc is None:
        return "the code crashed: " + crash_text(w)
    if doc["status"] == "error":
        raise RuntimeError(doc["error"])
    return doc["failure"]["message"] if doc["failure"] else None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    prop = a.prop

    if a.replay:
        check = Meta(prop)
        with open(a.replay) as fh:
            doc = json.load(fh)
        variant = doc.get("variant") or (check.VARIANT if isinstance(check.VARIANT, str) else check.VARIANT[0])
        need = list(dict.fromkeys([variant] + list(getattr(check, "NEEDS", []))))
        pys = {v: B.build(v) for v in need}
        os.environ["KMC_PY_BUILDS"] = json.dumps(pys)
        base = tempfile.mkdtemp(prefix="kmcverif-")
        try:
            msg = replay_file(prop, os.path.abspath(a.replay), pys[variant], variant, base,
                              getattr(check, "CASE_TIMEOUT", 120))
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if msg is None:
            print("replay of %s: the property holds on this input" % a.replay)
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1

    try:
        check, r = search(prop, a.tier, a.seed)
    except B.BuildError as e:
        print("the tree does not build:\n%s" % e)
        return 2

    evals = sum(d["evaluations"] for d in r["docs"])
    distinct = set()
    samples, stats = [], {}
    for d in r["docs"]:
        distinct |= set(d["nontrivial"])
        for k, v in d["stats"].items():
            stats[k] = stats.get(k, 0) + v
        stats["slowest_case_s"] = max(stats.get("slowest_case_s", 0), round(d.get("slowest", 0), 1))
        if len(samples) < 3 and d["samples"]:
            samples.append(d["samples"][0])
    lines, violations = [], []
    if r["fails"]:
        best = min(r["fails"], key=lambda f: len(dumps(f["case"])))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, digest(best["case"])))
        with open(path, "w") as fh:
            json.dump(dict(property=prop, variant=best["variant"], message=best["message"],
                           case=best["case"], seed=a.seed, tier=a.tier), fh, indent=1)
        violations.append(dict(message=best["message"], replay=path))
        lines.append(best["message"])
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - r["t0"]
    min_nt = getattr(check, "MIN_NONTRIVIAL", 30)
    errors = list(r["errors"])
    if not r["fails"] and not errors and len(distinct) < min_nt:
        errors.append("only %d non-trivial cases were generated" % len(distinct))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=check.RULE,
                            samples=samples, stats=stats, variants=r["variants"],
                            build_s=round(r["t_build"], 1)),
              wall_s=round(wall, 2), assumptions=check.ASSUMPTIONS, violations=len(violations))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f, got in r["findings"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for l in lines:
        print(l)
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)"
          % (prop, a.tier, a.seed, evals, len(distinct), wall, r["t_build"]))
    if r["fails"]:
        return 1
    if errors:
        print("HARNESS ERROR (%d):\n%s" % (len(errors), errors[0]))
        return 2
    return 0
