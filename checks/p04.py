"""Which event comes next: chosen in proportion to its rate."""
import math

from hypothesis import strategies as st

from lib import gen, sut, calc as C
from lib.common import need
from lib.common_kmc import load

VARIANT = "prod"
EXAMPLES = {"quick": 40, "thorough": 400}
RULE = ("a small model that never runs out of events is run for thousands of steps; at every step the probability of "
        "each event is computed from the reference rates, and the observed counts, per process, per process and "
        "site, and by the order of the list and the last two events, are compared with the accumulated expectation (a martingale; 7 standard deviations); non-trivial when "
        "at least two processes and five process-site pairs had enough expected events to be judged")
ASSUMPTIONS = ["the events possible at each step are taken from the event lists (decided by P01)"]
CASE_TIMEOUT = 240
MIN_NONTRIVIAL = 20
LIMIT = 7.0


def strategy(tier):
    steps = 4000 if tier == "quick" else 20000
    return st.one_of(gen.ergodic_case(steps=steps), gen.frozen_case(steps=steps), gen.frozen_case(steps=steps, max_sites=6))


# Seeds of the Mersenne twister whose stream has a zero among the first few hundred numbers.
ZEROS = [59529469, 27494765, 97264196, 87570971, 29330487, 102975347, 63055324, 94320219]


def fixed_cases(tier):
    for s in ZEROS:
        yield dict(basis=[[0, 0, 0]], reps=[4, 1, 1], periodic=[True, False, False], possible=["A", "B", "X"],
                   types=["A", "B", "A", "B"], implicit=True, rng="MT", seed=s, steps=300,
                   procs=[dict(offs=[[0, 0, 0]], before=["X"], after=["A"], basis=[0], rate=1.0),
                          dict(offs=[[0, 0, 0]], before=["A"], after=["B"], basis=[0], rate=1.0),
                          dict(offs=[[0, 0, 0]], before=["B"], after=["A"], basis=[0], rate=1.0)])


def event_rates(case, lat, procs, types, lists):
    spec = case.get("calc")
    out = []
    for k, p in enumerate(procs):
        for s in lists[k]:
            if spec:
                r = C.reference(spec, lat, p, k, types, s)
            else:
                r = p.rate * p.multiplicity(lat, types, s)
            out.append((k, s, r))
    return out


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    sut.seed(case)
    m, cfg, it = sut.model(case, calc=C.calculator(case["calc"]) if case.get("calc") else None)
    cpp = m._backend()
    exp, var, obs = {}, {}, {}

    def expect(key, p):
        exp[key] = exp.get(key, 0.0) + p
        var[key] = var.get(key, 0.0) + p * (1 - p)
    past = (None, None)
    known = {}
    for step in range(case["steps"]):
        types = sut.types_of(cfg, bucket)
        lists = sut.site_lists(cpp)
        state = repr((types, lists))
        if state not in known:
            if len(known) > 500:
                known.clear()
            known[state] = event_rates(case, lat, procs, types, lists)
        ev = known[state]
        tot = sum(r for _, _, r in ev)
        need(tot > 0, "no events in a model that always has some")
        per = {}
        for k, s, r in ev:
            p = r / tot
            per[k] = per.get(k, 0.0) + p
            expect((k, s), p)
            # The same by what came first in the list and by the place in the list.
            if per[k] > 1e-6 and p > 1e-6:
                expect((k, s, "with first", lists[k][0]), p)
                expect((k, "of", len(lists[k]), "place", lists[k].index(s)), p)
        for k, p in per.items():
            expect(k, p)
            expect((k, "after", past), p)
        cpp.propagateTime()
        cpp.singleStep()
        k, s = cfg.latestEventProcess(), cfg.latestEventSite()
        need(0 <= k < len(procs) and s in lists[k],
             "step %d: process %d was performed at site %d where it was not possible", step + 1, k, s)
        for key in (k, (k, s), (k, s, "with first", lists[k][0]),
                    (k, "of", len(lists[k]), "place", lists[k].index(s)), (k, "after", past)):
            obs[key] = obs.get(key, 0) + 1
        past = (past[1], k)
    judged = [0, 0]
    for key in exp:
        if var[key] < 60.0:
            continue
        judged[isinstance(key, tuple)] += 1
        z = (obs.get(key, 0) - exp[key]) / math.sqrt(var[key])
        what = "process %d" % key if not isinstance(key, tuple) else "process %d, %s" % (key[0], (("site",) + key[1:]))
        need(abs(z) < LIMIT, "%s was performed %d times in %d steps, expected %.1f +- %.1f (%.1f standard deviations)",
             what, obs.get(key, 0), case["steps"], exp[key], math.sqrt(var[key]), z)
    return dict(nontrivial=judged[0] >= 2 and judged[1] >= 5, stats=dict(statistics=sum(judged)))
