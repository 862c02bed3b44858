"""The lattice: where the sites are, how they are numbered, and who is next to whom."""
import itertools
import math

import numpy
from hypothesis import strategies as st

from KMCLib import KMCUnitCell, KMCLattice, KMCConfiguration
from KMCLib.Backend import Backend

from lib import gen, sut
from lib.common import need
from lib.model import Lattice, D

VARIANT = "prod"
EXAMPLES = {"quick": 1200, "thorough": 30000}
RULE = ("a random lattice: small ones are compared site by site, large ones (up to 2^31 sites, index arithmetic only) at "
        "random and extreme indices; non-trivial when the lattice has at least 4 cells")
ASSUMPTIONS = ["cells have a positive volume (right-handed), as the constructor demands",
               "relative moves of at most one period"]

LONG = 0  # very long lattices in the thorough tier


@st.composite
def small(draw):
    nb = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 4, 7, 9, 13, 20]))
    basis = draw(st.lists(st.tuples(*[st.integers(0, D - 1)] * 3), min_size=nb, max_size=nb, unique=True))
    reps = [draw(st.sampled_from([1, 1, 2, 3, 4, 5, 7])) for _ in range(3)]
    if draw(st.integers(0, 19)) == 19:
        # Long in one direction.
        basis, reps = basis[:2], [draw(st.integers(1, 2)) for _ in range(3)]
        reps[draw(st.integers(0, 2))] = draw(st.one_of(st.integers(100, 1200), st.sampled_from([1000, 3000, 9000] + [35000, 70000] * LONG)))
    per = [draw(st.booleans()) for _ in range(3)]
    f = st.sampled_from([-1.5, -0.5, 0.0, 0.0, 0.0, 0.25, 1.0, 0.75])
    cell = [[2.5, draw(f), draw(f)], [draw(f), 3.0, draw(f)], [draw(f), draw(f), 4.0]]
    if numpy.linalg.det(numpy.array(cell)) < 0.1:
        cell = [[2.5, 0.0, 0.0], [0.5, 3.0, 0.0], [0.0, -0.25, 4.0]]
    return dict(kind="small", basis=[list(b) for b in basis], reps=reps, periodic=per, cell=cell,
                shells=draw(st.one_of(st.integers(0, 3), st.integers(0, 7), st.sampled_from([100, 1000, 10 ** 8]))),
                picks=draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4)))


@st.composite
def large(draw):
    nb = draw(st.sampled_from([1, 1, 2, 3, 6, 11, 17, 40]))
    budget = (2 ** 31 - 1) // nb
    reps = []
    order = draw(st.permutations([0, 1, 2]))
    reps = [1, 1, 1]
    for d in order:
        top = max(1, min(budget, draw(st.sampled_from([1, 10, 300, 2000, 10 ** 5, 3 * 10 ** 8]))))
        reps[d] = draw(st.integers(max(1, top // 2), top))
        budget //= reps[d]
    n = nb * reps[0] * reps[1] * reps[2]
    where = st.one_of(st.integers(0, n - 1), st.integers(0, min(n - 1, 50)), st.integers(max(0, n - 50), n - 1))
    picks = draw(st.lists(where, min_size=1, max_size=5))
    return dict(kind="large", nb=nb, reps=reps, periodic=[draw(st.booleans()) for _ in range(3)], picks=picks,
                shells=draw(st.integers(0, 2)), off=[draw(st.integers(-3, 3)) for _ in range(3)])


def strategy(tier):
    global LONG
    LONG = int(tier == "thorough")
    return st.one_of(small(), large())


def cells_near(reps, periodic, cell, shells):
    axes = []
    for d in range(3):
        s = set()
        far = min(shells, reps[d] + 1)
        for q in range(cell[d] - far, cell[d] + far + 1):
            if periodic[d]:
                s.add(q % reps[d])
            elif 0 <= q < reps[d]:
                s.add(q)
        axes.append(sorted(s))
    return axes


def check_map(m, nb, reps, periodic, site, shells):
    c = site // nb
    cell = (c // (reps[1] * reps[2]), (c // reps[2]) % reps[1], c % reps[2])
    need(m.basisSiteFromIndex(site) == site % nb, "site %d: basis point %s, expected %d", site,
         m.basisSiteFromIndex(site), site % nb)
    want = [c * nb + b for b in range(nb)]
    have = list(m.indicesFromCell(*cell))
    need(have == want, "cell %s has the sites %s, expected %s", cell, have, want)
    axes = cells_near(reps, periodic, cell, shells)
    near = {((i * reps[1] + j) * reps[2] + k) * nb + b for i in axes[0] for j in axes[1] for k in axes[2]
            for b in range(nb)}
    got = set(m.neighbourIndices(site, shells))
    need(got == near, "site %d: within %d cells %s, expected %s", site, shells, sorted(got)[:40], sorted(near)[:40])
    return cell, near


def another_map(q):
    """A second lattice, which must not disturb the first."""
    return Backend.LatticeMap(1 + q % 5, Backend.StdVectorInt([2, 1, 3]), Backend.StdVectorBool([True, False, True]))


def run(case, ctx):
    reps, per = case["reps"], case["periodic"]
    sh = case["shells"]
    if case["kind"] == "large":
        nb = case["nb"]
        m = Backend.LatticeMap(nb, Backend.StdVectorInt(reps), Backend.StdVectorBool(per))
        others = [another_map(q) for q in case["picks"][:1]]
        every = set()
        for s in case["picks"]:
            cell, near = check_map(m, nb, reps, per, s, sh)
            every |= near
            off = case["off"]
            to = []
            for d in range(3):
                q = cell[d] + max(-reps[d], min(reps[d], off[d]))
                to.append(q % reps[d] if per[d] else min(max(q, 0), reps[d] - 1))
            rel = []
            for d in range(3):
                r = to[d] - cell[d]
                if per[d] and abs(off[d]) <= reps[d]:
                    r = off[d]
                rel.append(r)
            t = m.indexFromMoveInfo(s, rel[0], rel[1], rel[2], 0)
            want = ((to[0] * reps[1] + to[1]) * reps[2] + to[2]) * nb + s % nb
            need(t == want, "from site %d by %s cells: %d, expected %d", s, rel, t, want)
        sup = list(m.supersetNeighbourIndices(Backend.StdVectorInt(case["picks"]), sh))
        need(sup == sorted(every), "neighbours of %s: %s, expected %s", case["picks"], sup[:40], sorted(every)[:40])
        return dict(nontrivial=reps[0] * reps[1] * reps[2] >= 4, stats=dict(large=1))

    lat = Lattice(case["basis"], reps, per)
    lattice = sut.lattice(case)
    need(list(lattice.repetitions()) == reps and list(lattice.periodic()) == per, "repetitions or periodicity changed")
    sites = numpy.array(lattice.sites())
    need(sites.shape == (lat.n, 3), "%s sites, expected %d", sites.shape, lat.n)
    want = numpy.array(lat.pos) / float(D)
    bad = numpy.abs(sites - want).max(axis=1)
    need(bad.max() < 1e-9, "site %d is at %s, expected %s", int(bad.argmax()), sites[bad.argmax()], want[bad.argmax()])
    cart = lattice.unitCell().transformToCartesian(lattice.sites())
    for s in case["picks"]:
        s %= lat.n
        ref = [sum(want[s][a] * case["cell"][a][x] for a in range(3)) for x in range(3)]
        need(max(abs(cart[s][x] - ref[x]) for x in range(3)) < 1e-8, "site %d: cartesian %s, expected %s", s,
             list(cart[s]), ref)
        i, j, k = lat.cell_of(s)
        need(lattice._globalIndex(i, j, k, s % lat.nb) == s, "cell (%d,%d,%d), basis point %d is numbered %d, not %d",
             i, j, k, s % lat.nb, lattice._globalIndex(i, j, k, s % lat.nb), s)
    m = lattice._map()
    others = [another_map(q) for q in case["picks"][:1]]
    for s in range(lat.n):
        if (lat.n > 60 or sh > 3) and s not in [p % lat.n for p in case["picks"]]:
            continue
        check_map(m, lat.nb, reps, per, s, sh)
    cfg = KMCConfiguration(lattice=lattice, types=["A"] * lat.n, possible_types=["A"])
    need(numpy.abs(numpy.array(cfg.sites()) - want).max() < 1e-9, "sites of the configuration differ from the lattice")
    need(list(cfg.cellRepetitions()) == reps, "repetitions of the configuration differ")
    # The shortest separation of two sites, as the simulation takes it.
    for a in case["picks"]:
        b = case["picks"][0] * 7 + a // 3
        a, b = a % lat.n, b % lat.n
        c = Backend.Coordinate(*[float(want[b][d] - want[a][d]) for d in range(3)])
        m.wrap(c)
        for d, v in enumerate((c.x(), c.y(), c.z())):
            q = lat.pos[b][d] - lat.pos[a][d]
            full = D * reps[d]
            if per[d]:
                q = (q + full // 2) % full - full // 2
            need(abs(v * D - q) < 1e-6 or (per[d] and abs(abs(v * D - q) - full) < 1e-6 and abs(abs(2 * q) - full) < 1e-6),
                 "separation of sites %d and %d in direction %d: %s, expected %s", a, b, d, v, q / float(D))
    return dict(nontrivial=reps[0] * reps[1] * reps[2] >= 4, stats=dict(small=1))
