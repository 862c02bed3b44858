"""Identity of the particles: ids, their positions, their types, and who moved."""
from hypothesis import strategies as st

from lib import gen, sut
from lib.common import need
from lib.common_kmc import load
from lib.model import World, D

VARIANT = "prod"
EXAMPLES = {"quick": 660, "thorough": 6000}
RULE = ("a random one-particle-per-site model with swaps, cyclic moves (explicit move vectors) and type changes is "
        "stepped up to 30 times; non-trivial when at least two moves took place")
ASSUMPTIONS = ["move vectors given by the user describe a permutation of the sites they name",
               "a site whose particle does not move keeps its particle"]


def strategy(tier):
    plain = gen.plain_case(max_steps=30, max_procs=3, movers=True)
    return gen.mostly(st.one_of(plain, plain, plain, gen.wide_case(max_sites=120, bucket=False),
                                gen.bulky_case(max_steps=30, bucket=False)), gen.heavy_case(bucket=False), 20)


def run(case, ctx):
    lat, procs = load(case)
    sut.seed(case)
    m, cfg, it = sut.model(case)
    cpp = m._backend()
    world = World(lat, case["types"])
    nmoves = 0

    def compare(where):
        pos = cfg.atomIDCoordinates()
        ty = [str(t) for t in cfg.atomIDTypes()]
        need(len(pos) == lat.n and len(ty) == lat.n, "%s: %d ids instead of %d", where, len(ty), lat.n)
        want = [None] * lat.n
        for site, aid in enumerate(world.id_at):
            want[aid] = world.types[site]
        for a in range(lat.n):
            e = max(abs(pos[a][d] - world.id_pos[a][d] / float(D)) for d in range(3))
            need(e < 1e-7, "%s: particle %d is at %s, expected %s", where, a, list(pos[a]),
                 [x / float(D) for x in world.id_pos[a]])
            need(ty[a] == want[a], "%s: particle %d is reported as %s, expected %s", where, a, ty[a], want[a])

    compare("at the start")
    for step in range(1, case["steps"] + 1):
        if not any(sut.site_lists(cpp)):
            break
        cpp.singleStep()
        k, s = cfg.latestEventProcess(), cfg.latestEventSite()
        p = procs[k]
        if any(lat.at(s, o) is None for o in p.offs):
            break
        old = list(world.types)
        ids = list(world.id_at)
        targets, moved = world.apply(p, s)
        where = "step %d: after process %d (moves %s) at site %d" % (step, k, p.moves, s)
        compare(where)
        got = set(cfg.movedAtomIDs())
        need(set(moved) <= got, "%s: particles %s moved but %s are reported as moved", where, sorted(moved), sorted(got))
        allowed = set(moved) | set(ids[t] for t in targets if old[t] != world.types[t])
        need(got <= allowed, "%s: %s are reported as moved, but only %s took part", where, sorted(got), sorted(allowed))
        nmoves += bool(moved)
    return dict(nontrivial=nmoves >= 2, stats=dict(moves=nmoves))
