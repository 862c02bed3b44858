"""Occupations given by the user end up where the user put them, in every input format."""
from hypothesis import strategies as st

from KMCLib import KMCConfiguration, KMCProcess, KMCInteractions, KMCLatticeModel

from lib import gen, sut
from lib.common import need
from lib.model import Lattice

VARIANT = "prod"
EXAMPLES = {"quick": 600, "thorough": 20000}
RULE = ("a random lattice with a random occupation is given in one of the formats of the types list; every site, the "
        "numbers per type and the types by particle are compared; non-trivial with at least two types on four sites")
ASSUMPTIONS = ["where the long format names a site twice it gives the same type", "numbers of particles are not negative"]

NAMES = ["A", "B", "V", "O", "Ti", "a", "up", "down", "A1", "Aa", "b", "Co_2", "x y", "1", "ABCDEFGHIJKLMNOPQ"]


@st.composite
def strategy_(draw):
    lp = draw(gen.lattice_part(max_sites=60))
    lat = Lattice(lp["basis"], lp["reps"], lp["periodic"])
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    fmt = draw(st.sampled_from(["short", "long", "bucket", "bucket"]))
    case = dict(lp, names=names, fmt=fmt, give=draw(st.booleans()), extra=draw(st.booleans()))
    if fmt == "short":
        case["types"] = draw(st.lists(st.sampled_from(names), min_size=lat.n, max_size=lat.n))
    elif fmt == "long":
        # Some sites, all of them in some order, or as many entries as sites with some sites named twice.
        kind = draw(st.sampled_from(["some", "some", "all", "double"]))
        small = st.integers(0, lat.n - 1)
        if kind == "some":
            sites = draw(st.lists(small, min_size=1, max_size=12, unique=True))
        elif kind == "all":
            sites = draw(st.permutations(range(lat.n)))
        else:
            sites = draw(st.lists(small, min_size=lat.n, max_size=lat.n))
        tt = {}
        case["set"] = [[s, tt.setdefault(s, draw(st.sampled_from(names)))] for s in sites]
        case["default"] = draw(st.sampled_from(names))
    else:
        entry = st.one_of(
            st.sampled_from(names),
            st.tuples(st.integers(1, 9), st.sampled_from(names)).map(list),
            st.lists(st.one_of(st.sampled_from(names), st.tuples(st.integers(1, 40), st.sampled_from(names)).map(list)),
                     max_size=5).map(lambda v: {"list": v}))
        case["types"] = draw(st.lists(entry, min_size=lat.n, max_size=lat.n))
        if all(isinstance(t, str) for t in case["types"]):
            case["types"][0] = {"list": [case["types"][0]]}
    return case


@st.composite
def large(draw):
    """The same on lattices of hundreds of sites, with tens of types."""
    import random
    r = random.Random(draw(st.integers(0, 10 ** 9)))
    nb = r.choice([1, 1, 2, 5, 11, 17])
    reps = [r.randint(2, 12), r.randint(2, 12), r.randint(1, 9)]
    r.shuffle(reps)
    basis = r.sample([[a, b, c] for a in (0, 8, 16) for b in (0, 12) for c in (0, 6, 18)], nb)
    n = nb * reps[0] * reps[1] * reps[2]
    names = ["%s%d" % (r.choice("XYZab"), i) for i in range(draw(st.sampled_from([3, 12, 30, 70])))]
    r.shuffle(names)
    fmt = draw(st.sampled_from(["short", "long", "bucket"]))
    case = dict(basis=basis, reps=reps, periodic=[r.random() < 0.5 for _ in range(3)], names=names, fmt=fmt,
                give=draw(st.booleans()), extra=draw(st.booleans()))
    if fmt == "short":
        case["types"] = [r.choice(names) for _ in range(n)]
    elif fmt == "long":
        k = draw(st.sampled_from([n, n - 1, n // 2, 3]))
        case["set"] = [[s, r.choice(names)] for s in r.sample(range(n), max(1, k))]
        case["default"] = r.choice(names)
    else:
        def entry():
            q = r.random()
            if q < 0.3:
                return r.choice(names)
            if q < 0.6:
                return [r.choice([1, 2, 9, 300]), r.choice(names)]
            return {"list": [r.choice([r.choice(names), [r.randint(1, 50), r.choice(names)]]) for _ in range(r.choice([0, 1, 3, 20]))]}
        case["types"] = [entry() for _ in range(n)]
        case["types"][0] = {"list": [r.choice(names)]}
    return case


def strategy(tier):
    return gen.mostly(strategy_(), large(), 10)


def as_input(e):
    if isinstance(e, str):
        return e
    if isinstance(e, dict):
        return [as_input(x) for x in e["list"]]
    return (e[0], e[1])


def as_counts(e):
    out = {}
    for x in (e["list"] if isinstance(e, dict) else [e]):
        n, t = (1, x) if isinstance(x, str) else x
        out[t] = out.get(t, 0) + n
    return out


def run(case, ctx):
    lat = Lattice(case["basis"], case["reps"], case["periodic"])
    lattice = sut.lattice(case)
    names = case["names"]
    kw = {}
    if case["fmt"] == "short":
        want = list(case["types"])
        kw["types"] = list(want)
    elif case["fmt"] == "long":
        want = [case["default"]] * lat.n
        kw["types"] = []
        for s, t in case["set"]:
            want[s] = t
            kw["types"].append(lat.cell_of(s) + (lat.basis_of(s), t))
        kw["default_type"] = case["default"]
    else:
        want = [as_counts(e) for e in case["types"]]
        kw["types"] = [as_input(e) for e in case["types"]]
    bucket = case["fmt"] == "bucket"
    present = sorted({t for w in want for t in (w if bucket else [w])})
    if case["give"]:
        kw["possible_types"] = list(names) + (["zz"] if case["extra"] else [])
    cfg = KMCConfiguration(lattice=lattice, **kw)
    poss = sorted(t for t in cfg.possibleTypes() if t != "*")
    need(poss == sorted(kw["possible_types"] if case["give"] else present), "possible types are %s", poss)

    def norm(e):
        if not bucket:
            return str(e)
        d = {}
        for x in e:
            d[str(x)] = d.get(str(x), 0) + 1
        return d
    for turn in (1, 2):
        have = [norm(e) for e in cfg.types()]
        need(len(have) == lat.n, "%d sites are occupied, expected %d", len(have), lat.n)
        for s in range(lat.n):
            need(have[s] == want[s], "site %d (cell %s, basis point %d) holds %s, expected %s", s, lat.cell_of(s),
                 lat.basis_of(s), have[s], want[s])
    total = {}
    for w in want:
        for t, n in (w if bucket else {w: 1}).items():
            total[t] = total.get(t, 0) + n
    got = list(cfg.particlesPerType())
    order = list(cfg._backendTypeNames())
    need(len(got) == len(order), "%d numbers of particles for the types %s", len(got), order)
    per = {str(t): n for t, n in zip(order, got)}
    for t in present:
        need(per.get(t) == total[t], "%s particles of type %s are reported, expected %d", per.get(t), t, total[t])
    for t, n in per.items():
        need(t == "*" or n == total.get(t, 0), "%s particles of type %s are reported, expected %d", n, t, total.get(t, 0))
    if not bucket:
        need([str(t) for t in cfg.atomIDTypes()] == want, "the types by particle differ from those by site at the start")
    return dict(nontrivial=len(present) >= 2 and lat.n >= 4, stats={case["fmt"]: 1})
