"""What a custom rate function is shown, and what is done with what it returns."""
from hypothesis import strategies as st

from lib import gen, sut, calc as C
from lib.common import need, close
from lib.common_kmc import load
from lib.model import verdict, YES, NO, OPEN, D

VARIANT = "prod"
EXAMPLES = {"quick": 170, "thorough": 5000}
RULE = ("a random model with a custom rate function that records its arguments is stepped up to 20 times; every call is "
        "compared with the environment in the reference, and the process rates with the values the function must "
        "have given for the present environments; non-trivial when a step was taken and two calls were compared")
ASSUMPTIONS = ["where the matching is left open at an edge of the lattice, the calls are not judged",
               "a function that gives no cutoff gets at least one cell, as the code does"]


@st.composite
def cases(draw):
    if draw(st.integers(0, 3)) == 0:
        case = draw(gen.wide_case(max_sites=80, max_steps=10, clear=True, calc=True, far=2))
    elif draw(st.integers(0, 7)) == 0:
        case = draw(gen.bulky_case(calc=True))
    elif draw(st.integers(0, 11)) == 11:
        case = draw(gen.heavy_case(sites=400, steps=80, calc=True))
    else:
        case = draw(gen.calc_case(max_steps=20 if draw(st.booleans()) else 12))
    # Rates that differ by many orders of magnitude, as rates of activated processes do.
    case["calc"]["wide"] = draw(st.sampled_from([False, False, True]))
    return case


def strategy(tier):
    return cases()


def norm(e):
    if isinstance(e, str):
        return str(e)
    return {str(t): int(n) for n, t in e}


def run(case, ctx):
    lat, procs = load(case)
    spec = case["calc"]
    bucket = procs[0].bucket
    log = []
    sut.seed(case)
    m, cfg, it = sut.model(case, calc=C.calculator(spec, log))
    cpp = m._backend()
    judged = steps = 0
    for step in range(case["steps"] + 1):
        types = sut.types_of(cfg, bucket)
        where = "after %d steps" % step
        for c in log:
            k = c["k"]
            need(0 <= k < len(procs), "%s: rate asked for process number %s", where, k)
            p = procs[k]
            pos = tuple(int(round(x * D)) for x in c["at"])
            need(pos in lat.index and max(abs(x * D - q) for x, q in zip(c["at"], pos)) < 1e-6,
                 "%s: rate asked at %s which is no site", where, c["at"])
            s = lat.index[pos]
            v = verdict(lat, p, types, s, case["implicit"])
            if v == OPEN:
                continue
            need(v == YES, "%s: the rate of process %d was asked for at site %d, where it is not possible", where, k, s)
            offs, before, after = C.inputs(spec, lat, p, types, s)
            need(max(max(abs(x * D - q) for x, q in zip(row, o)) for row, o in zip(c["coords"], c["offs"])) < 1e-6,
                 "%s: coordinates off the lattice: %s", where, c["coords"])
            need(c["offs"] == offs, "%s: process %d at site %d: coordinates %s, expected %s", where, k, s,
                 c["offs"], offs)
            need([norm(e) for e in c["before"]] == before, "%s: process %d at site %d: types before %s, expected %s",
                 where, k, s, c["before"], before)
            need([norm(e) for e in c["after"]] == after, "%s: process %d at site %d: types after %s, expected %s",
                 where, k, s, c["after"], after)
            need(c["rate_constant"] == p.rate, "%s: rate constant %r, expected %r", where, c["rate_constant"], p.rate)
            judged += 1
        del log[:]
        lists = sut.site_lists(cpp)
        tot = 0.0
        sure = True
        for k, (p, q) in enumerate(zip(procs, cpp.interactions().processes())):
            if any(verdict(lat, p, types, s, case["implicit"]) == OPEN for s in lists[k]):
                sure = False
                continue
            want = sum(C.reference(spec, lat, p, k, types, s) for s in lists[k])
            need(close(q.totalRate(), want, 1e-7, 0.0),
                 "%s: process %d has total rate %r, the rate function gives %r for its sites %s", where, k,
                 q.totalRate(), want, sorted(lists[k]))
            tot += want
        if sure:
            got = cpp.interactions().totalRate()
            need(close(got, tot, 1e-7, 0.0), "%s: total rate %r, expected %r", where, got, tot)
        if step == case["steps"] or not any(lists):
            break
        cpp.singleStep()
        steps += 1
    return dict(nontrivial=steps > 0 and judged >= 2, stats=dict(calls=judged))
