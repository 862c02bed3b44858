"""What an event changes."""
from hypothesis import strategies as st

from lib import gen, sut
from lib.common import need
from lib.common_kmc import load
from lib.model import World, counts

VARIANT = "prod"
EXAMPLES = {"quick": 660, "thorough": 6000}
RULE = ("a random lattice model (plain or bucket) is stepped up to 30 times and the whole occupation is compared "
        "with the reference after each event; non-trivial when at least one event changed the occupation")
ASSUMPTIONS = ["no process names a site twice through the periodic boundaries"]


def strategy(tier):
    return gen.mostly(st.one_of(gen.plain_case(max_steps=25), gen.plain_case(max_steps=25), gen.bucket_case(max_steps=25, big=True),
                                gen.wide_case(max_sites=120), gen.bulky_case(max_steps=25)), gen.heavy_case(), 20)


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    sut.seed(case)
    m, cfg, it = sut.model(case)
    cpp = m._backend()
    need(sut.types_of(cfg, bucket) == case["types"], "the occupation is not the one the configuration was given")
    world = World(lat, case["types"])
    changed = 0
    for step in range(1, case["steps"] + 1):
        lists = sut.site_lists(cpp)
        if not any(lists):
            break
        cpp.singleStep()
        k, s = cfg.latestEventProcess(), cfg.latestEventSite()
        need(0 <= k < len(procs), "step %d: the latest event is reported for process %s of %d", step, k, len(procs))
        need(s in lists[k], "step %d: the latest event is reported at site %s, where process %d was not possible (%s)",
             step, s, k, sorted(lists[k]))
        p = procs[k]
        if any(lat.at(s, o) is None and not p.is_wild(i) for i, o in enumerate(p.offs)):
            need(False, "step %d: process %d took place at site %d where its coordinates do not exist", step, k, s)
        if any(lat.at(s, o) is None for o in p.offs):
            break
        before = list(world.types)
        targets, _ = world.apply(p, s)
        got = sut.types_of(cfg, bucket)
        need(len(got) == lat.n, "step %d: %d sites are reported instead of %d", step, len(got), lat.n)
        for i in range(lat.n):
            need(got[i] == world.types[i],
                 "step %d: after process %d at site %d, site %d holds %s, expected %s (it held %s and %s one of the "
                 "sites of the process)", step, k, s, i, got[i], world.types[i], before[i],
                 "is" if i in targets else "is not")
        want = counts(world.types, case["possible"])
        have = dict(zip([str(x) for x in cfg._backendTypeNames()][1:], list(cfg.particlesPerType())[1:]))
        need(have == want, "step %d: particles per type reported as %s, the occupation has %s", step, have, want)
        need(all(n >= 0 for n in have.values()), "negative number of particles")
        if before != world.types:
            changed += 1
    return dict(nontrivial=changed > 0, stats=dict(changes=changed))
