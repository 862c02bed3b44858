"""Many runs together show the probabilities of the master equation."""
import random

import numpy
from hypothesis import strategies as st
from scipy.linalg import expm
from scipy.stats import binom

from KMCLib import KMCBreakerPlugin

from lib import gen, sut, runs, calc as C
from lib.common import need
from lib.common_kmc import load
from lib.model import World, verdict, OPEN, YES

VARIANT = "prod"
EXAMPLES = {"quick": 12, "thorough": 150}
RULE = ("a model with few states: all its states and the rates between them are enumerated with the reference rules, and "
        "the probabilities of the states at two times follow from the matrix exponential; a thousand short simulations "
        "with different seeds, each a fresh model run through the public run function, in one or two parts, are counted by the pair of "
        "states at these times, and by each of them (exact binomial tails, 1e-12 each); non-trivial when at least "
        "eight counts with an expectation between 2% and 98% were judged")
ASSUMPTIONS = ["seeds that follow on each other give independent runs with the Mersenne twister; for the other generators "
               "the seeds are drawn at random"]
CASE_TIMEOUT = 240
MIN_NONTRIVIAL = 8
RUNS = 1000
STATES = 150
LIMIT = 1e-12


@st.composite
def cases(draw):
    which = draw(st.integers(0, 5))
    if which <= 1:
        case = draw(gen.plain_case(max_sites=7, max_procs=3, clear=True, max_rng=1))
    elif which == 2:
        case = draw(gen.bucket_case(max_sites=4))
    elif which == 3:
        case = draw(gen.calc_case(max_sites=7))
    else:
        case = draw(gen.ergodic_case(steps=0, max_sites=4))
    case["runs"] = RUNS
    case["at"] = draw(st.sampled_from([0.3, 0.8, 2.0, 6.0]))
    case["first"] = draw(st.sampled_from([0.2, 0.5, 0.8]))
    case["part"] = draw(st.sampled_from([0, 0, 1, 3]))
    case["seed"] = draw(st.integers(1, 10 ** 8))
    return case


def strategy(tier):
    return cases()


class Until(KMCBreakerPlugin):
    def __init__(self, end):
        self.end = end

    def evaluate(self, step, time, configuration):
        return time > self.end

    def interval(self):
        return 1


def key(types):
    return tuple(tuple(sorted(t.items())) if isinstance(t, dict) else t for t in types)


def enumerate_states(case, lat, procs):
    """The states that can be reached, as far as they are listed, and the rates between them (the last
    row and column are the others); None where the reference does not settle what is possible."""
    spec = case.get("calc")
    start = case["types"] if isinstance(case["types"][0], str) else [dict(t) for t in case["types"]]
    states, index, rates = [start], {key(start): 0}, []
    i = 0
    while i < len(states):
        here, i = states[i], i + 1
        for k, p in enumerate(procs):
            for s in range(lat.n):
                v = verdict(lat, p, here, s, case["implicit"])
                if v == OPEN:
                    return None
                if v != YES:
                    continue
                r = C.reference(spec, lat, p, k, here, s) if spec else p.rate * p.multiplicity(lat, here, s)
                w = World(lat, here)
                w.apply(p, s)
                if any(n < 0 for t in w.types if isinstance(t, dict) for n in t.values()):
                    return None
                q = key(w.types)
                if q not in index and len(states) < STATES:
                    index[q] = len(states)
                    states.append(w.types)
                rates.append((i - 1, index.get(q, -1), r))
    n = len(states) + 1
    Q = numpy.zeros((n, n))
    for a, b, r in rates:
        Q[a, b] += r
        Q[a, a] -= r
    return index, Q


def run(case, ctx):
    lat, procs = load(case)
    got = enumerate_states(case, lat, procs)
    if got is None:
        return dict(nontrivial=False, stats=dict(unsettled=1))
    index, Q = got
    fastest = -Q.diagonal().min()
    if not -Q[0, 0] > 0:
        return dict(nontrivial=False, stats=dict(still=1))
    end = min(case["at"] / -Q[0, 0], 60.0 / fastest)
    half = end * case["first"]
    n = len(Q)
    p1 = expm(Q * half)[0]
    step2 = expm(Q * (end - half))
    p2 = p1.dot(step2)
    r = random.Random(case["seed"])
    bucket = procs[0].bucket
    calculator = C.calculator(case["calc"]) if case.get("calc") else None
    obs = {}
    for i in range(case["runs"]):
        one = (lambda: case["seed"] + i) if case["rng"] == "MT" else (lambda: r.randrange(1, 2 ** 31 - 1))
        m, cfg, it = sut.model(case, calc=calculator)
        rec = runs.Recorder(bucket)
        done = 0
        if case["part"]:
            runs.run(m, case, case["part"], seed=one(), analysis=[rec], breakers=[Until(end)])
            done = 10 ** 8
        if not (rec.log and rec.log[-2][2] > end):
            runs.run(m, case, 400, seed=one() + done * (case["rng"] == "MT"), analysis=[rec], breakers=[Until(end)])
        seen = [(e[2], e[3]) for e in rec.log if len(e) > 2]
        where = []
        left = False
        at = [half, end]
        now = 0
        for t, types in seen:
            while at and t > at[0]:
                where.append(now)
                at.pop(0)
            left = left or key(types) not in index
            now = n - 1 if left else index[key(types)]
        where += [now] * len(at)
        for what in (("first", where[0]), ("second", where[1]), tuple(where)):
            obs[what] = obs.get(what, 0) + 1
    N = case["runs"]
    judged = 0
    prob = {}
    for a in range(n):
        prob[("first", a)] = p1[a]
        prob[("second", a)] = p2[a]
        for b in range(n):
            prob[(a, b)] = p1[a] * step2[a, b]
    for what, p in prob.items():
        o = obs.get(what, 0)
        p = min(1.0, max(0.0, float(p)))
        tail = min(binom.cdf(o, N, max(0.0, p * 0.999999 - 1e-12)) if o < N * p else 1.0,
                   binom.sf(o - 1, N, min(1.0, p * 1.000001 + 1e-12)) if o > N * p else 1.0)
        judged += 0.02 < p < 0.98
        need(tail > LIMIT, "%s: %d of %d runs, the probability is %.6g (tail %.2g); times %.6g and %.6g", what, o, N, p,
             tail, half, end)
    return dict(nontrivial=judged >= 8, stats=dict(counts=judged, states=n - 1))
