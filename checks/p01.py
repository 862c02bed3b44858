"""Event lists."""
from hypothesis import strategies as st

from lib import gen, sut
from lib.common import need
from lib.common_kmc import load, check_lists
from lib.model import D, World

VARIANT = "prod"
EXAMPLES = {"quick": 1000, "thorough": 6000}
RULE = ("a random lattice model (plain or bucket, implicit or explicit wildcards) is built and stepped 1-30 "
        "times (some models are large: up to 2500 sites, 45 processes, 40 types, 12 basis points or 200 steps); non-trivial when at least one event was possible and at least one step was taken")
ASSUMPTIONS = ["periodic directions hold the process without a site being its own neighbour",
               "at edges of a non-periodic lattice only the outcomes the documentation settles are judged"]


@st.composite
def stretched(draw):
    """Some process reaches far out of the lattice."""
    case = draw(gen.plain_case(max_procs=3))
    ends = [d for d in range(3) if not case["periodic"][d]]
    if ends:
        p = draw(st.sampled_from(case["procs"]))
        o = [0, 0, 0]
        o[draw(st.sampled_from(ends))] = D * draw(st.sampled_from([40, -40, 700, -1000, 10 ** 6]))
        t = draw(st.sampled_from(case["possible"]))
        p["offs"] = p["offs"] + [o]
        p["before"] = p["before"] + [t]
        p["after"] = p["after"] + [t]
    return case


def strategy(tier):
    return gen.mostly(st.one_of(gen.plain_case(), gen.plain_case(), gen.bucket_case(), gen.wide_case(), stretched(),
                                gen.bulky_case()), gen.heavy_case(), 20)


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    sut.seed(case)
    m, cfg, it = sut.model(case)
    cpp = m._backend()
    steps = 0
    yes = 0
    work = 0
    for step in range(case["steps"] + 1):
        types = sut.types_of(cfg, bucket)
        lists = sut.site_lists(cpp)
        last = step == case["steps"] or not any(lists)
        # All of it, or what would take too long at some of the steps.
        if work < 40000 or last or step * 7 % case["steps"] < 6:
            work += lat.n * len(procs)
            y, o = check_lists(case, lat, procs, types, lists, "after %d steps" % step)
            yes += y
        need(cpp.interactions().totalAvailableSites() == sum(len(l) for l in lists),
             "after %d steps: the number of available events is reported wrongly", step)
        if last:
            break
        cpp.singleStep()
        steps += 1
    if steps:
        # A model set up afresh from the present configuration must have the same events.
        m2, cfg2, it2 = sut.model(case, types=types)
        fresh = [sorted(l) for l in sut.site_lists(m2._backend())]
        need(fresh == [sorted(l) for l in lists],
             "after %d steps the event lists differ from those of a new model with the same configuration", steps)
    return dict(nontrivial=steps > 0 and yes > 0, stats=dict(steps=steps, available=yes))
