"""Rates: per process and in total."""
from hypothesis import strategies as st

from lib import gen, sut, calc as C
from lib.common import need, close
from lib.common_kmc import load, expected_process_total
from lib.model import verdict, OPEN

VARIANT = "prod"
EXAMPLES = {"quick": 660, "thorough": 6000}
RULE = ("a random lattice model (plain, bucket with multiple occupation, or custom rates) is stepped up to 25 times and all process "
        "rates are recomputed from the occupation each time; non-trivial when events were possible and a step was "
        "taken")
ASSUMPTIONS = ["the sites a process is available at are taken from its event list (decided by P01)",
               "rates are numbers that can be represented"]


def strategy(tier):
    return gen.mostly(st.one_of(gen.plain_case(max_steps=25), gen.bucket_case(max_steps=25, big=True),
                                gen.bucket_case(max_steps=25, big=True), gen.wide_case(max_sites=120),
                                gen.calc_case(max_steps=25), gen.bulky_case(max_steps=25, bucket=True)), st.one_of(gen.heavy_case(), gen.heavy_case(bucket=True)), 20)


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    sut.seed(case)
    spec = case.get("calc")
    m, cfg, it = sut.model(case, calc=C.calculator(spec) if spec else None)
    cpp = m._backend()
    steps = 0
    multi = 0
    for step in range(case["steps"] + 1):
        lists = sut.site_lists(cpp)
        types = sut.types_of(cfg, bucket)
        tot = 0.0
        if spec and any(verdict(lat, p, types, s, case["implicit"]) == OPEN for p, l in zip(procs, lists) for s in l):
            break
        if not spec and max(expected_process_total(lat, p, types, lists[k]) for k, p in enumerate(procs)) > 1e290:
            break
        for k, (p, q) in enumerate(zip(procs, cpp.interactions().processes())):
            if spec:
                want = sum(C.reference(spec, lat, p, k, types, s) for s in lists[k])
            else:
                want = expected_process_total(lat, p, types, lists[k])
            multi += any(p.multiplicity(lat, types, s) > 1 for s in lists[k])
            got = q.totalRate()
            need(close(got, want, 1e-7, 0.0), "after %d steps: process %d (rate %r, sites %s) has total rate %r, "
                 "expected %r", step, k, p.rate, sorted(lists[k]), got, want)
            tot += want
        got = cpp.interactions().totalRate()
        need(close(got, tot, 1e-7, 0.0), "after %d steps: the total rate is %r, expected %r", step, got, tot)
        if step == case["steps"] or not any(lists):
            break
        cpp.singleStep()
        steps += 1
    return dict(nontrivial=steps > 0, stats=dict(steps=steps, multiplicity_above_one=multi))
