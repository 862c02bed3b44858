"""Equivalent descriptions of a model are simulated identically."""
import itertools

from hypothesis import strategies as st

from lib import gen, sut
from lib.common import need, close
from lib.common_kmc import load
from lib.model import verdict, OPEN

VARIANT = "prod"
EXAMPLES = {"quick": 800, "thorough": 6000}
RULE = ("a random model and an equivalent rewriting of it (order of the local coordinates, another origin of the "
        "coordinates, other type names, another order of the possible types, a list of basis sites in another order, "
        "the same single particles as counts, coordinates rounded to six or more decimals, whole periods added to the lattice axes' order) are stepped from the same "
        "seed; non-trivial when two events took place")
ASSUMPTIONS = ["the first coordinate of a process is its centre and stays first"]

KINDS = ["permute", "origin", "rename", "possible", "noise", "axes", "longer"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS + ["bucket"]))
    bucket = kind != "bucket" and draw(st.integers(0, 4)) == 0
    if bucket:
        case = draw(gen.bucket_case(max_sites=40, max_steps=12))
    elif draw(st.integers(0, 5)) == 0:
        case = draw(gen.bulky_case(bucket=False))
    else:
        case = draw(gen.plain_case(max_sites=40, max_steps=12, max_procs=3))
    case["kind"] = kind
    if kind == "permute":
        case["perms"] = [draw(st.permutations(list(range(1, len(p["offs"]))))) for p in case["procs"]]
    if kind == "origin":
        case["to"] = [[draw(st.integers(-300, 300)) for _ in range(3)] for p in case["procs"]]
    if kind == "possible":
        case["order"] = draw(st.permutations(case["possible"]))
        case["more"] = draw(st.sampled_from([[], [], ["q"], ["q", "0"]]))
    if kind == "rename":
        names = draw(st.permutations(["zz", "A", "b", "Qu", "B2", "V", "0x"]))
        case["map"] = dict(zip(case["possible"], names))
    if kind == "axes":
        case["axes"] = draw(st.permutations([0, 1, 2]))
    if kind == "noise":
        case["eps"] = [[draw(st.integers(-9, 9)) for _ in range(3)] for _ in range(64)]
        # Rounding of doubles, or of seven or six written decimals.
        case["unit"] = draw(st.sampled_from([1e-13, 5e-9, 5e-8]))
    return case


def strategy(tier):
    return cases()


def rename_bucket(b, m):
    return {m.get(t, t): n for t, n in b.items()}


def twin(case):
    """The rewritten case, and a function from sites of the rewritten to sites of the original."""
    c = dict(case)
    procs = [dict(p) for p in case["procs"]]
    c["procs"] = procs
    back = None
    kind = case["kind"]
    if kind == "permute":
        for p, perm in zip(procs, case["perms"]):
            new = [0] + list(perm)
            inv = {o: i for i, o in enumerate(new)}
            for f in ("offs", "before", "after", "min", "upd"):
                if f in p:
                    p[f] = [p[f][i] for i in new]
            if p.get("moves") is not None:
                p["moves"] = [[inv[a], inv[b]] for a, b in p["moves"]][::-1]
    elif kind == "origin":
        for p, t in zip(procs, case["to"]):
            p["origin"] = t
    elif kind == "possible":
        c["possible"] = list(case["order"]) + case["more"]
    elif kind == "rename":
        m = case["map"]
        c["possible"] = [m[t] for t in case["possible"]]
        if isinstance(case["types"][0], dict):
            c["types"] = [rename_bucket(t, m) for t in case["types"]]
        else:
            c["types"] = [m[t] for t in case["types"]]
        for p in procs:
            for f in ("before", "after"):
                if f in p:
                    p[f] = [m.get(t, t) for t in p[f]]
            for f in ("min", "upd"):
                if f in p:
                    p[f] = [rename_bucket(b, m) for b in p[f]]
    elif kind == "longer":
        for p in procs:
            p["basis"] = list(p["basis"]) + [len(case["basis"]) + 3]
    elif kind == "bucket":
        c["types"] = [{t: 1} for t in case["types"]]
        c["bucketed"] = True
        for p in procs:
            b, a = p.pop("before"), p.pop("after")
            p.pop("moves", None)
            p["min"] = [{t: 1} for t in b]
            p["upd"] = [{} if x == y else {x: -1, y: 1} for x, y in zip(b, a)]
    elif kind == "axes":
        ax = case["axes"]
        c["basis"] = [[b[x] for x in ax] for b in case["basis"]]
        c["reps"] = [case["reps"][x] for x in ax]
        c["periodic"] = [case["periodic"][x] for x in ax]
        for p in procs:
            p["offs"] = [[o[x] for x in ax] for o in p["offs"]]
            p["origin"] = [0, 0, 0]
        nb = len(case["basis"])
        r, q = case["reps"], c["reps"]
        back = {}
        types = [None] * len(case["types"])
        for i, j, k in itertools.product(range(q[0]), range(q[1]), range(q[2])):
            cell = [0, 0, 0]
            for d, v in zip(ax, (i, j, k)):
                cell[d] = v
            for b in range(nb):
                s = ((i * q[1] + j) * q[2] + k) * nb + b
                o = ((cell[0] * r[1] + cell[1]) * r[2] + cell[2]) * nb + b
                back[s] = o
                types[s] = case["types"][o]
        c["types"] = types
    return c, back


# The backend objects live as long as the models.
ALIVE = []


def build(case):
    m, cfg, it = sut.model(case)
    ALIVE.append((m, cfg, it))
    return m._backend(), cfg


def plain(types, mp):
    out = []
    for t in types:
        if isinstance(t, dict):
            t = {mp.get(x, x): n for x, n in t.items()}
            out.append(tuple(sorted(t.items())))
        else:
            out.append(((mp.get(t, t), 1),))
    return out


def run(case, ctx):
    other, back = twin(case)
    kind = case["kind"]
    del ALIVE[:]
    bucket = isinstance(case["types"][0], dict)
    sut.seed(case)
    c1, f1 = build(case)
    if kind == "noise":
        # The same coordinates up to rounding errors.
        keep, n = sut.frac, [0]

        def noisy(o, shift=(0, 0, 0)):
            v = keep(o, shift)
            n[0] += 1
            e = case["eps"][n[0] % len(case["eps"])]
            return [x + case["unit"] * y for x, y in zip(v, e)]
        sut.frac = noisy
        try:
            other = dict(other, basis=case["basis"])
            its = sut.interactions(other)
        finally:
            sut.frac = keep
        cfg = sut.configuration(other)
        from KMCLib import KMCLatticeModel
        model = KMCLatticeModel(cfg, its)
        ALIVE.append((model, cfg, its))
        c2, f2 = model._backend(), cfg
    else:
        c2, f2 = build(other)
    mp = {v: k for k, v in case["map"].items()} if kind == "rename" else {}
    same_order = kind in ("permute", "origin", "rename", "possible", "noise", "longer")
    steps = 0
    lat, procs = load(case)
    for step in range(case["steps"] + 1):
        l1, l2 = sut.site_lists(c1), sut.site_lists(c2)
        if back:
            l2 = [[back[s] for s in l] for l in l2]
        for k, (a, b) in enumerate(zip(l1, l2)):
            if back:
                # Where the lattice ends, the matching is not the same in all directions.
                now = sut.types_of(f1, bucket)
                a, b = ([s for s in x if verdict(lat, procs[k], now, s, case["implicit"]) != OPEN] for x in (a, b))
            need(sorted(a) == sorted(b), "after %d events (%s): process %d is possible at %s, in the equivalent model at %s",
                 step, kind, k, sorted(a), sorted(b))
        r1 = [p.totalRate() for p in c1.interactions().processes()]
        r2 = [p.totalRate() for p in c2.interactions().processes()]
        need(back or all(close(a, b, 1e-9) for a, b in zip(r1, r2)), "after %d events (%s): rates %s, in the equivalent model %s",
             step, kind, r1, r2)
        t1 = plain(sut.types_of(f1, bucket), {})
        t2 = plain(sut.types_of(f2, bucket or kind == "bucket"), mp)
        if back:
            t2 = [t2[s] for s in sorted(back, key=lambda s: back[s])]
        need(t1 == t2, "after %d events (%s): occupations differ", step, kind)
        if step == case["steps"] or not any(l1):
            break
        if same_order:
            sut.seed(dict(case, seed=case["seed"] + step))
            c1.propagateTime()
            c1.singleStep()
            sut.seed(dict(case, seed=case["seed"] + step))
            c2.propagateTime()
            c2.singleStep()
            e1 = f1.latestEventProcess(), f1.latestEventSite()
            e2 = f2.latestEventProcess(), f2.latestEventSite()
            need(e1 == e2, "event %d (%s): process %d at site %d, in the equivalent model process %d at site %d",
                 step + 1, kind, e1[0], e1[1], e2[0], e2[1])
        else:
            # The order of the sites differs, and with it the choice for a given seed: follow
            # the first with a fresh copy of the second.
            sut.seed(dict(case, seed=case["seed"] + step))
            c1.singleStep()
            now = sut.types_of(f1, bucket)
            if back:
                now = [now[back[s]] for s in range(len(now))]
            if kind == "bucket":
                now = [{t: 1} for t in now]
            c2, f2 = build(dict(other, types=now))
        steps += 1
    return dict(nontrivial=steps >= 2, stats={kind: 1})
