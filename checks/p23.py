"""A simulation distributed over several processes is the same simulation."""
import io
import json
import os
import time

from hypothesis import strategies as st

from KMCLib import KMCControlParameters, TimeStepDistribution, OnTheFlyMSD, ProcessStatistics
from KMCLib.Analysis.Composition import Composition
from KMCLib.Exceptions.Error import Error

from lib import gen, sut, runs, calc as C
from lib.common import need

VARIANT = "prod"
NEEDS = ["mpi"]
EXAMPLES = {"quick": 150, "thorough": 2500}
WORKERS = 3
RULE = ("a random model, some with custom rates (cached or not), is run on two to four processes under mpirun, whose clocks "
        "differ, and in one process without MPI; what every process records at every step, the trajectory file and the "
        "printed statistics are compared; non-trivial with at least three events")
ASSUMPTIONS = ["custom rate functions give the same value on every process and no errors",
               "Open MPI on one host; the processes' wall clocks may differ and jump"]
CASE_TIMEOUT = 120
HANG = 25
GROUPS = {}


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=40, max_procs=4), gen.bucket_case(max_sites=24),
                          gen.calc_case(max_sites=24), gen.calc_case(max_sites=24), gen.ergodic_case(steps=1), gen.bulky_case(),
                          gen.heavy_case(sites=600)))
    if draw(st.integers(0, 9)) == 9:
        case = draw(gen.heavy_case(sites=400, calc=draw(st.booleans())))
    if case.get("calc") and draw(st.booleans()):
        case["calc"]["cache"] = True
    case["np"] = draw(st.sampled_from([2, 3, 4]))
    case["parts"] = [dict(steps=draw(st.integers(0, 20)), seed=draw(st.integers(1, 10 ** 6)),
                          rng=draw(st.sampled_from(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48", "DEVICE", "TIME"])),
                          dump=draw(st.sampled_from([1, 2, 5])),
                          traj=draw(st.sampled_from([None, "lattice", "xyz"])))
                     for _ in range(draw(st.integers(1, 2)))]
    # Wall clock of each process: readings advance by this many seconds.
    case["clock"] = draw(st.lists(st.sampled_from([0.0, 1.0, 400.0, 1000.0, 2000.0]), min_size=4, max_size=4))
    case["skew"] = draw(st.lists(st.sampled_from([0, 0, 1, 100000]), min_size=4, max_size=4))
    if isinstance(case["types"][0], dict):
        for p in case["parts"]:
            if p["traj"] == "xyz":
                p["traj"] = "lattice"
    return case


def strategy(tier):
    return cases()


def answer(case, rank, where):
    """What one process sees."""
    bucket = isinstance(case["types"][0], dict)
    spec = case.get("calc")
    real = time.time
    now = [1e9 + case["skew"][rank]]

    def clock():
        now[0] += case["clock"][rank]
        return now[0]
    m, cfg, it = sut.model(case, calc=C.calculator(spec) if spec else None)
    out = []
    path = os.path.join(where, "trajectory")
    time.time = clock
    try:
        for q, part in enumerate(case["parts"]):
            rec = runs.Recorder(bucket, ids=not bucket)
            more = [Composition(), TimeStepDistribution(binsize=0.1), ProcessStatistics(processes=[0])]
            ctl = dict(seed=part["seed"], rng_type=part["rng"])
            if part["rng"] == "TIME":
                ctl = {}
            kw = {}
            if part["traj"]:
                kw = dict(trajectory_filename=path, trajectory_type=part["traj"])
            err = None
            try:
                m.run(KMCControlParameters(number_of_steps=part["steps"], dump_interval=part["dump"], **ctl),
                      analysis=[rec] + more, **kw)
            except Error as e:
                err = str(e)
            text = io.StringIO()
            if rec.log:
                for a in more[:2]:
                    a.printResults(text)
            file = None
            if part["traj"] and os.path.exists(path) and rank == 0:
                with open(path) as fh:
                    file = fh.read()
                os.remove(path)
            out.append(dict(log=json.loads(json.dumps(rec.log)), err=err, text=text.getvalue(), file=file,
                            lists=[sorted(l) for l in sut.site_lists(m._backend())], total=m._backend().interactions().totalRate()))
    finally:
        time.time = real
    return out


def group(n, ctx):
    if n not in GROUPS:
        from lib.mpisrv import Group
        GROUPS[n] = Group("p23", n, ctx["dir"], json.loads(os.environ["KMC_PY_BUILDS"])["mpi"], 7919)
    return GROUPS[n]


def run(case, ctx):
    n = case["np"]
    got = group(n, ctx).ask(case, HANG)
    if isinstance(got, str):
        GROUPS.pop(n).close()
        need(False, "%d processes: %s", n, got)
    for r, g in enumerate(got):
        need("ok" in g, "process %d of %d: %s %s", r, n, g.get("error"), g.get("where"))
    got = [g["ok"] for g in got]
    free = [p["rng"] in ("DEVICE", "TIME") for p in case["parts"]]
    first = free.index(True) if any(free) else len(free)
    ref = None
    if first > 0:
        ref = answer(dict(case, parts=case["parts"][:first]), 0, ctx["scratch"])
    events = 0
    for q, part in enumerate(case["parts"]):
        a = got[0][q]
        events += sum(1 for e in a["log"] if e[0].endswith(".step"))
        for r in range(1, n):
            b = got[r][q]
            for i, (x, y) in enumerate(zip(a["log"], b["log"])):
                need(x == y, "run %d, call %d: process 0 saw %s, process %d of %d saw %s", q + 1, i, x, r, n, y)
            need(len(a["log"]) == len(b["log"]) and a["err"] == b["err"], "run %d: process 0 made %d calls and ended with %r, "
                 "process %d of %d %d with %r", q + 1, len(a["log"]), a["err"], r, n, len(b["log"]), b["err"])
            need(a["lists"] == b["lists"] and a["total"] == b["total"], "run %d: possible events differ between processes 0 and "
                 "%d of %d: %s, %s", q + 1, r, n, a["lists"], b["lists"])
            need(b["text"] == "", "run %d: process %d of %d printed statistics too", q + 1, r, n)
        if q < first:
            s = ref[q]
            for i, (x, y) in enumerate(zip(a["log"], s["log"])):
                need(same(x, y), "run %d, call %d: one process alone saw %s, each of %d processes %s", q + 1, i, y, n, x)
            need(len(a["log"]) == len(s["log"]) and a["err"] == s["err"], "run %d: one process alone made %d calls and ended "
                 "with %r, %d processes %d with %r", q + 1, len(s["log"]), s["err"], n, len(a["log"]), a["err"])
            need(a["lists"] == s["lists"], "run %d: possible events %s with %d processes, %s alone", q + 1, a["lists"], n, s["lists"])
            need(same(words(a["text"]), words(s["text"])), "run %d: statistics printed with %d processes:\n%s\nalone:\n%s", q + 1, n,
                 a["text"], s["text"])
            need((a["file"] is None) == (s["file"] is None), "run %d: trajectory written with %d processes: %s, alone: %s",
                 q + 1, n, a["file"] is not None, s["file"] is not None)
            if a["file"] is not None:
                need(same(words(a["file"]), words(s["file"])), "run %d: trajectory with %d processes:\n%s\nalone:\n%s", q + 1, n,
                     a["file"][:3000], s["file"][:3000])
        elif a["file"] is not None:
            need(a["file"].count("\n") >= 1, "run %d: empty trajectory", q + 1)
            frames(part, a, q)
    return dict(nontrivial=events >= 3, stats={"processes_%d" % n: 1})


def frames(part, a, q):
    """The frames of a trajectory that cannot be compared with another run."""
    want = [e[1] for e in a["log"] if (e[0].endswith(".step") and e[1] % part["dump"] == 0) or e[0].endswith(".setup")]
    if part["traj"] == "lattice":
        got = [int(l.split("(")[1].split(")")[0]) for l in a["file"].splitlines() if l.startswith("steps.append(")]
    else:
        got = [int(l.split()[1]) for l in a["file"].splitlines() if l.startswith("STEP ")]
    need(got == want, "run %d: trajectory has the steps %s, expected %s", q + 1, got, want)


def words(text):
    out = []
    text = "\n".join(l for l in text.splitlines() if not l.startswith("creation_time"))
    for w in text.replace("(", " ").replace(")", " ").replace(",", " , ").split():
        try:
            out.append(float(w))
        except ValueError:
            out.append(w)
    return out


def same(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return isinstance(x, (int, float)) and isinstance(y, (int, float)) and (x == y or x != x and y != y or
                                                                                abs(x - y) <= 1e-9 * max(abs(x), abs(y)))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return x == y
