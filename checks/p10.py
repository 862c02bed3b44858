"""Caching of custom rates changes nothing but the number of evaluations."""
import random

from hypothesis import strategies as st

from lib import gen, sut, calc as C
from lib.common import need, close
from lib.common_kmc import load
from lib.model import verdict, OPEN

VARIANT = "prod"
FLOOD_BIG = 1
KEPT = 7000  # the cache has eight parts of 1024 values, of which the oldest is dropped when a new one is needed
EXAMPLES = {"quick": 130, "thorough": 4000}
RULE = ("a random model with a custom rate function of the environment is run from the same seed without caching, and "
        "with caching (some processes, whose rate depends on the place as well, excluded); events, times and rates are "
        "compared step by step; non-trivial when the cache saved an evaluation and two events took place")
ASSUMPTIONS = ["a cached rate function depends on its arguments other than the global coordinate only"]


@st.composite
def flood(draw):
    """More environments than fit in one part of the cache, and events that bring back earlier ones."""
    n = draw(st.sampled_from([24, 33, 34, 36, 48] + [96, 112, 128] * FLOOD_BIG))
    r = random.Random(draw(st.integers(0, 10 ** 9)))
    types = [r.choice("ABC") for _ in range(n * n)]
    flip = [dict(offs=[[0, 0, 0]], before=[a], after=[b], basis=[0], rate=q, moves=None, origin=[0, 0, 0])
            for a, b, q in (("A", "B", 1.0), ("B", "A", draw(st.sampled_from([1.0, 1e3, 1e6]))))]
    return dict(basis=[[0, 0, 0]], reps=[n, n, 1], periodic=[True, True, False], types=types,
                possible=["A", "B", "C"], procs=flip, implicit=True, bucket=False, seed=draw(st.integers(1, 10 ** 6)),
                steps=draw(st.sampled_from([10, 30])), flood=True,
                calc=dict(t="A", base=[1.0, flip[1]["rate"]], a=0.25, b=0.125, cutoff=draw(st.sampled_from([1.5, 2.0])), w=True))


@st.composite
def cases(draw):
    if draw(st.integers(0, 19)) == 0:
        case = draw(flood())
        case["calc"]["local"] = [0, 1]
        case["calc"]["exclude"] = []
        return case
    if draw(st.integers(0, 3)) == 0:
        case = draw(gen.wide_case(max_sites=80, max_steps=15, clear=True, calc=True, far=2))
    elif draw(st.integers(0, 11)) == 11:
        case = draw(gen.heavy_case(sites=400, steps=80, calc=True))
    elif draw(st.integers(0, 9)) == 0:
        case = draw(gen.bulky_case(calc=True))
    else:
        case = draw(gen.calc_case(max_steps=15))
    n = len(case["procs"])
    ex = draw(st.lists(st.integers(0, n - 1), max_size=draw(st.sampled_from([2, n])), unique=True)) if draw(st.booleans()) else []
    case["calc"]["local"] = [k for k in range(n) if k not in ex]
    case["calc"]["exclude"] = ex
    case["calc"]["g"] = draw(st.sampled_from([0.25, 1.0]))
    if draw(st.booleans()):
        case["calc"]["w"] = True
        case["calc"]["a"] = 1.0
    if draw(st.booleans()):
        # The same environment for different processes.
        case["procs"] = case["procs"] + [dict(p, rate=p["rate"] * 3) for p in case["procs"][:2]]
        case["calc"]["local"] = [k for k in range(len(case["procs"])) if k not in ex]
        case["calc"]["rc"] = True
    return case


def strategy(tier):
    return cases()


def freeze(x):
    return repr(x)


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    traces, calls = [], []
    for cached in (False, True):
        spec = dict(case["calc"], cache=cached)
        log = []
        sut.seed(case)
        m, cfg, it = sut.model(case, calc=C.calculator(spec, log))
        cpp = m._backend()
        seen, n, stores, trace = {}, 0, 0, []
        for step in range(case["steps"] + 1):
            fresh = {}
            for c in log:
                if c["k"] in spec["local"]:
                    key = (c["k"], freeze(c["offs"]), freeze(c["before"]), freeze(c["after"]))
                    stores += 1
                    need(not cached or key not in seen or stores - seen[key] >= KEPT,
                         "step %d: process %d was evaluated again for an environment evaluated before, despite caching: %s",
                         step, c["k"], key)
                    fresh[key] = stores
            n += len(log)
            seen.update(fresh)
            del log[:]
            types = sut.types_of(cfg, bucket)
            lists = sut.site_lists(cpp)
            now = [p.totalRate() for p in cpp.interactions().processes()]
            # The reference also knows what the rates must be.
            for k, p in enumerate(procs):
                if case.get("flood") and step not in (0, case["steps"]):
                    break
                if any(verdict(lat, p, types, s, case["implicit"]) == OPEN for s in lists[k]):
                    continue
                want = sum(C.reference(spec, lat, p, k, types, s) for s in lists[k])
                need(close(now[k], want, 1e-7, 1e-9),
                     "step %d, %s: process %d has rate %r, the rate function gives %r for its sites %s", step,
                     "with caching" if cached else "without caching", k, now[k], want, sorted(lists[k]))
            trace.append((step and cfg.latestEventProcess(), step and cfg.latestEventSite(), tuple(now), types))
            if step == case["steps"] or not any(lists):
                break
            cpp.propagateTime()
            cpp.singleStep()
        traces.append(trace)
        calls.append(n)
    a, b = traces
    need(len(a) == len(b), "%d steps without caching, %d with", len(a) - 1, len(b) - 1)
    for step, (x, y) in enumerate(zip(a, b)):
        need(all(close(p, q, 1e-9) for p, q in zip(x[2], y[2])), "step %d: rates %s without caching, %s with", step,
             x[2], y[2])
        need(x[0] == y[0] and x[1] == y[1] and x[3] == y[3],
             "step %d: process %s at site %s without caching, process %s at site %s with", step, x[0], x[1], y[0], y[1])
    return dict(nontrivial=len(a) > 2 and calls[1] < calls[0], stats=dict(uncached=calls[0], cached=calls[1]))
