"""The same seed gives the same simulation, whatever is written or analysed along the way."""
import os

from hypothesis import strategies as st

from KMCLib import (OnTheFlyMSD, TimeStepDistribution, ProcessStatistics, KMCControlParameters, KMCAnalysisPlugin)
from KMCLib.Analysis.Composition import Composition
from KMCLib.Backend import Backend

from lib import gen, sut, runs, calc as C
from lib.common import need
from lib.twin import Twin

VARIANT = "prod"
EXAMPLES = {"quick": 270, "thorough": 3000}
RULE = ("a random model is run from a seed on its own, once or twice in a row, again after the random numbers and other models were used, again "
        "with trajectories, the analyses of the package, breakers that do not fire and other intervals, and in an interpreter "
        "with another hash seed and another time of day; events, times and occupations must be identical, and change with the seed; non-trivial "
        "with at least five events")
ASSUMPTIONS = ["the random device and seeds taken from the clock are not meant to be reproducible"]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=40, max_procs=3), gen.bucket_case(max_sites=20),
                          gen.ergodic_case(steps=1), gen.calc_case(max_sites=30), gen.bulky_case()))
    case["steps"] = draw(st.integers(1, 40))
    if draw(st.integers(0, 13)) == 13:
        case = draw(gen.heavy_case(sites=600))
    case["seed"] = draw(st.one_of(st.integers(0, 10 ** 6), st.sampled_from([0, 1, 2 ** 31 - 20000])))
    bucket = isinstance(case["types"][0], dict)
    alt = dict(rng=draw(st.sampled_from(["MT", "MINSTD", "RANLUX24", "RANLUX48"])), burn=draw(st.integers(0, 50)),
               analysis_interval=draw(st.integers(1, 9)), other=draw(st.booleans()),
               traj=draw(st.sampled_from([None, "lattice"] if bucket else [None, "lattice", "xyz"])),
               breakers=draw(st.lists(st.integers(1, 5), max_size=2)),
               plugins=draw(st.lists(st.sampled_from(["comp", "stat", "spatial", "steps", "look"] + ([] if bucket else ["msd"])),
                                     max_size=4)))
    if draw(st.booleans()):
        alt["dump_interval"] = draw(st.integers(1, 9))
    elif draw(st.booleans()):
        alt["dump_time_interval"] = draw(st.sampled_from([0.01, 0.3, 5.0]))
    # A second run of the same model, with a seed of its own.
    case["second"] = draw(st.one_of(st.none(), st.integers(1, 20)))
    case["alt"] = alt
    return case


def strategy(tier):
    return cases()


class Look(KMCAnalysisPlugin):
    """Reads everything a plugin can read."""

    def __init__(self, bucket):
        self.bucket = bucket

    def look(self, c):
        c.types(), c.particlesPerType(), c.sites(), c.latestEventProcess(), c.latestEventSite(), c.movedAtomIDs()
        c.possibleTypes(), c._backendTypeNames(), c.lattice().sites()
        if not self.bucket:
            c.atomIDCoordinates(), c.atomIDTypes()

    def setup(self, step, time, configuration):
        self.look(configuration)

    def registerStep(self, step, time, configuration):
        self.look(configuration)


def burn(alt):
    Backend.setRngType(sut.RNG[alt["rng"]])
    for _ in range(alt["burn"]):
        Backend.randomDouble01()


def simulate(case, seed=None, extra=None, scratch=None, between=None):
    """[[time, process, site, types]...] for every step, and how it ended."""
    bucket = isinstance(case["types"][0], dict)
    calc = C.calculator(case["calc"]) if case.get("calc") else None
    m, cfg, it = sut.model(case, calc=calc)
    out = []

    def note(step, time):
        types = sut.types_of(cfg, bucket)
        out.append([step, time.hex(), cfg.latestEventProcess() if step else -1, cfg.latestEventSite() if step else -1, types])

    class Rec(KMCAnalysisPlugin):
        def setup(self, step, time, configuration):
            note(step, time)

        def registerStep(self, step, time, configuration):
            note(step, time)

    kw = {}
    ana = [Rec()]
    if extra:
        for k in ("dump_interval", "dump_time_interval"):
            if k in extra:
                kw[k] = extra[k]
        kw["analysis_interval"] = extra["analysis_interval"]
        if extra["traj"]:
            path = os.path.join(scratch, "t")
            if os.path.exists(path):
                os.remove(path)
            kw.update(trajectory_filename=path, trajectory_type=extra["traj"])
        kw["breakers"] = [runs.Breaker(bucket, n, None, [], "b") for n in extra["breakers"]] or None
        for p in extra["plugins"]:
            ana.insert(0, dict(comp=lambda: Composition(time_interval=0.7),
                               stat=lambda: ProcessStatistics(processes=[0], time_interval=0.5),
                               spatial=lambda: ProcessStatistics(processes=[0, 1], spatially_resolved=True),
                               steps=lambda: TimeStepDistribution(binsize=0.5), look=lambda: Look(bucket),
                               msd=lambda: OnTheFlyMSD(history_steps=4, n_bins=10, t_max=5.0,
                                                       track_type=case["possible"][0]))[p]())
    err = runs.run(m, case, case["steps"], seed=seed, analysis=ana, **kw)
    if err is None and out:
        # The state at the end, whatever the interval was.
        note(case["steps"], 0.0)
    first = [list(out), err]
    del out[:]
    err = None
    if case["second"] and first[1] is None:
        if between:
            burn(between)
        err = runs.run(m, case, case["second"], seed=(seed or case["seed"]) + 3, analysis=[Rec()])
    return first + [out, err]


def answer(case):
    return simulate(case)


STATE = {}


def setup(ctx):
    STATE["twin"] = None


def run(case, ctx):
    alt = case["alt"]
    ref, err, *more = simulate(case)
    # Again, after other use of the random numbers.
    burn(alt)
    if alt["other"]:
        simulate(dict(case, seed=case["seed"] + 5, steps=3))

    def compare(what, want, got):
        need(got[:2] == want[:2], what + ": %s", first(want[0], got[0], want[1], got[1]))
        need(got[2:] == want[2:], what + ", second run: %s", first(want[2], got[2], want[3], got[3]))
    whole = [ref, err] + more
    compare("the same seed gives another simulation", whole, simulate(case, between=alt))
    # With other output.
    n = alt["analysis_interval"]
    want = [r for r in ref[:-1] if r[0] % n == 0] + ref[-1:] if err is None else [r for r in ref if r[0] % n == 0]
    compare("output or analysis change the simulation", [want, err] + more, simulate(case, extra=alt, scratch=ctx["scratch"]))
    # In another interpreter.
    if STATE.get("twin") is None:
        STATE["twin"] = Twin("p12", 1 + ctx.get("index", 0) * 37, fork=True)
    ans = STATE["twin"].ask(case)
    if ans is None or "error" in ans:
        STATE["twin"] = None
        need(ans is None, "in another interpreter: %s", ans and ans["error"])
        need(False, "another interpreter did not survive this simulation")
    compare("another interpreter simulates this differently", whole, ans["ok"])
    # Another seed.
    events = len(ref) - 1
    if events >= 3:
        diff = simulate(case, seed=case["seed"] + 12345)[0]
        need([r[1] for r in diff[:3]] != [r[1] for r in ref[:3]], "another seed gives the same times")
    return dict(nontrivial=events >= 5, stats=dict(events=events))


def first(a, b, e, f):
    for x, y in zip(a, b):
        if x != y:
            return "%s became %s" % (x[:4], y[:4]) if x[:4] != y[:4] else "the occupation after step %d" % x[0]
    return "%d records and %r became %d and %r" % (len(a), e, len(b), f)
