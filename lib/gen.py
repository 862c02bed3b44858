"""Hypothesis strategies for lattices, configurations and processes (see lib/model.py)."""
import itertools

from hypothesis import strategies as st

from lib.model import D, Lattice, R2

BASIS_MENU = [(0, 0, 0), (12, 12, 12), (12, 12, 0), (8, 16, 0), (16, 8, 12), (6, 6, 6), (0, 0, 12), (18, 6, 0),
              (0, 12, 12), (8, 8, 0), (16, 16, 8), (3, 0, 21), (20, 4, 0),
              (1, 0, 0), (13, 12, 12)]
RATES = [1.0, 0.5, 2.0, 3.0, 0.25, 7.5, 0.1, 10.0, 0.01, 100.0, 1.0 / 3.0]
TYPE_SETS = [["A", "B"], ["A", "V"], ["A", "B", "V"], ["B", "A"], ["V", "O", "Ti"], ["a", "bb", "CCC", "d"],
             ["A", "B", "C", "V"], ["up", "down"]]


def ints(lo, hi):
    return st.integers(lo, hi)


@st.composite
def lattice_part(draw, max_sites=60, need_clear=False, rng=1, max_basis=3, dims=None):
    """basis, reps, periodic.  need_clear: every periodic direction has at least 2*rng+1 cells,
    so that no site sees another one, or itself, twice within rng cells."""
    nb = draw(st.sampled_from([1, 1, 1, 2, 2, 3][: 3 + max_basis] if max_basis < 3 else [1, 1, 2, 2, 3]))
    menu = BASIS_MENU[:]
    if draw(ints(0, 2)) == 0:
        first = draw(st.sampled_from(menu))
    else:
        first = (0, 0, 0)
    basis = [first]
    while len(basis) < nb:
        b = draw(st.sampled_from([m for m in menu if m not in basis]))
        basis.append(b)
    lo = 2 * rng + 1
    dim = dims or draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
    active = draw(st.permutations([0, 1, 2]))[:dim]
    reps, per = [1, 1, 1], [False, False, False]
    budget = max_sites // nb
    for d in range(3):
        if d in active:
            left = [x for x in active if x > d]
            periodic = draw(ints(0, 3)) != 0
            if need_clear and periodic:
                mn = lo
            else:
                mn = 2
            mx = budget
            for _ in left:
                mx //= lo if need_clear else 2
            if mx < mn:
                periodic = False
                mn = 1
                mx = max(1, mx)
            r = draw(ints(mn, max(mn, min(mx, 7))))
            reps[d], per[d] = r, periodic
            budget = max(1, budget // r)
        else:
            # A flat direction: one layer.
            per[d] = False if need_clear else draw(st.booleans())
    return dict(basis=[list(b) for b in basis], reps=reps, periodic=per)


def legal_offsets(lat, site, rng):
    """Offsets from a site to others, within rng, unambiguous in every periodic direction."""
    out = []
    m = max(1, rng)
    p = lat.pos[site]
    seen = set()
    for o in lat.env(site, 3 * (rng * D) ** 2):
        if max(abs(c) for c in o) > rng * D:
            continue
        if any(lat.periodic[d] and 2 * abs(o[d]) >= D * lat.reps[d] for d in range(3) if o[d] != 0):
            continue
        if any(lat.periodic[d] and lat.reps[d] > 1 and 4 * R2(o) >= (D * lat.reps[d]) ** 2 for d in range(3)):
            continue
        t = lat.at(site, o)
        if t is None or o in seen:
            continue
        seen.add(o)
        out.append(o)
    return out


@st.composite
def before_after(draw, n, fixed, possible, wild=True, movers=False):
    """Types before and after for n coordinates; fixed: the types found at a reference place."""
    before = []
    for i in range(n):
        mode = draw(ints(0, 9))
        if mode < 7 or (movers and mode < 9):
            before.append(fixed[i])
        elif mode < 9 or not wild:
            before.append(draw(st.sampled_from(possible)))
        else:
            before.append("*")
    concrete = [i for i in range(n) if before[i] != "*"]
    if not concrete:
        before[0] = fixed[0]
        concrete = [0]
    after = list(before)
    kind = draw(st.sampled_from([0, 1, 2, 2, 2, 3] if movers else [0, 1, 2, 3]))
    moves = None
    pairs = [(i, j) for i in concrete for j in concrete if i < j and before[i] != before[j]]
    if kind <= 1 and pairs:
        i, j = draw(st.sampled_from(pairs))
        after[i], after[j] = before[j], before[i]
        if draw(ints(0, 2)) == 0:
            moves = [[i, j], [j, i]]
    elif kind == 2 and len(concrete) >= 2:
        # A cyclic move of two to four particles, described with move vectors.
        k = draw(ints(2, min(4, len(concrete))))
        cyc = draw(st.permutations(concrete))[:k]
        moves = []
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            after[b] = before[a]
            moves.append([a, b])
        if after == before:
            moves = None
            after = list(before)
    if after == before:
        moves = None
        k = draw(ints(1, min(2, len(concrete))))
        for i in draw(st.permutations(concrete))[:k]:
            others = [t for t in possible if t != before[i]]
            after[i] = draw(st.sampled_from(others))
    return before, after, moves


@st.composite
def kmc_process(draw, lat, types, possible, explicit, rng, max_offs=5, multi_basis=False, movers=False):
    ref = draw(ints(0, lat.n - 1))
    b = lat.basis_of(ref)
    shell = explicit or multi_basis
    legal = legal_offsets(lat, ref, rng)
    others = [o for o in legal if o != (0, 0, 0)]
    basis = [b]
    if shell and draw(ints(0, 9)) != 0:
        # All the sites within a radius that the lattice resolves.
        radii = sorted({R2(o) for o in legal})
        ok = []
        for r2 in radii:
            env = lat.env(ref, r2)
            if len(env) > 20:
                break
            if all(o in legal for o in env):
                ok.append(r2)
        r2 = draw(st.sampled_from(ok))
        offs = list(lat.env(ref, r2))
        offs.remove((0, 0, 0))
    else:
        k = draw(ints(min(1, len(others)) if movers else 0, min(max_offs - 1, len(others))))
        offs = draw(st.permutations(others))[:k] if k else []
    offs = list(offs)
    if len(offs) <= 6:
        offs = draw(st.permutations(offs)) if offs else []
    offs = [(0, 0, 0)] + list(offs)
    fixed = [types[lat.at(ref, o)] for o in offs]
    before, after, moves = draw(before_after(len(offs), fixed, possible, movers=movers))
    if multi_basis and draw(st.booleans()):
        basis = sorted(set([b] + draw(st.lists(ints(0, lat.nb - 1), max_size=2))))
        if draw(ints(0, 3)) == 0:
            basis = basis[::-1]
    origin = draw(st.sampled_from([(0, 0, 0), (0, 0, 0), (8, 16, 0), (-30, 7, 24), (240, 5, -100)]))
    return dict(offs=[list(o) for o in offs], before=before, after=after, moves=moves, basis=basis,
                rate=draw(st.sampled_from(RATES)), origin=list(origin))


def reverse(p):
    q = dict(p)
    q["before"], q["after"] = p["after"], p["before"]
    if p["moves"] is not None:
        q["moves"] = [[b, a] for a, b in p["moves"]]
    return q


def span(procs):
    """How many cells the processes reach."""
    m = D
    for p in procs:
        for o in p["offs"]:
            m = max([m] + [abs(c) for c in o])
    return -(-m // D)


@st.composite
def plain_case(draw, max_sites=60, max_procs=4, max_steps=10, implicit=None, clear=None, max_rng=2, movers=False):
    """A lattice model with one particle per site."""
    imp = draw(st.booleans()) if implicit is None else implicit
    multi = draw(ints(0, 5)) == 0
    need_clear = clear if clear is not None else ((not imp or multi) and draw(st.booleans()))
    rng = draw(st.sampled_from([1, 1, 1, 2])) if max_rng > 1 else 1
    lp = draw(lattice_part(max_sites=max_sites, need_clear=need_clear, rng=rng))
    lat = Lattice(lp["basis"], lp["reps"], lp["periodic"])
    possible = list(draw(st.sampled_from(TYPE_SETS)))
    style = draw(ints(0, 3))
    if style == 0:
        base = draw(st.sampled_from(possible))
        types = [base] * lat.n
        for i in draw(st.lists(ints(0, lat.n - 1), max_size=6)):
            types[i] = draw(st.sampled_from(possible))
    else:
        types = draw(st.lists(st.sampled_from(possible), min_size=lat.n, max_size=lat.n))
    procs = []
    n = draw(ints(1, max_procs))
    while len(procs) < n:
        p = draw(kmc_process(lat, types, possible, not imp, rng, multi_basis=multi, movers=movers))
        procs.append(p)
        if movers or draw(ints(0, 2)) != 0:
            q = reverse(p)
            q["rate"] = draw(st.sampled_from(RATES))
            procs.append(q)
    return dict(lp, possible=possible, types=types, procs=procs, implicit=imp,
                seed=draw(ints(0, 10 ** 6)), rng=draw(st.sampled_from(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"])),
                steps=draw(ints(1, max_steps)))


@st.composite
def wide_case(draw, max_sites=260, max_steps=30, bucket=None, far=3, clear=False, calc=False):
    """A lattice with many cells, most of them occupied by something that can move, and hops over
    all kinds of offsets.  Drawn from a few numbers, so that its size is not limited by Hypothesis."""
    import random
    imp = draw(st.booleans())
    r = random.Random(draw(ints(0, 10 ** 9)))
    basis = [[0, 0, 0]] if draw(ints(0, 3)) else [list(b) for b in r.sample(BASIS_MENU, 2)]
    layout = draw(st.sampled_from(["a", "b", "c", "ab", "ac", "bc", "ac", "bc", "abc", "abc"]))
    budget = max_sites // len(basis)
    reps, per = [1, 1, 1], [False, False, False]
    left = len(layout)
    for d in sorted((0, 1, 2), key=lambda x: r.random()):
        if "abc"[d] not in layout:
            per[d] = r.random() < 0.3 and imp and not clear
            continue
        left -= 1
        hi = {0: budget, 1: int(budget ** 0.5) + 4, 2: int(budget ** (1.0 / 3)) + 3}[left]
        reps[d] = r.randint(3, max(3, min(hi, 23 if len(layout) > 1 else 60, budget // 3 ** left)))
        budget = max(1, budget // reps[d])
        per[d] = r.random() < 0.75 and not (clear and reps[d] < 2 * far + 1)
    lat = Lattice(basis, reps, per)
    n = draw(ints(1, 3))
    isb = draw(ints(0, 3)) == 0 if bucket is None else bucket
    possible = ["A", "B", "V"][: draw(st.sampled_from([2, 3, 3]))]
    share = r.choice([0.1, 0.3, 0.5, 0.5, 0.8])
    if isb:
        types = [{t: r.choice([1, 1, 2, 3]) for t in possible if r.random() < share} for _ in range(lat.n)]
    else:
        types = [r.choice(possible[:-1]) if r.random() < share else possible[-1] for _ in range(lat.n)]
    procs = []
    for _ in range(n):
        rng = r.choice([1, 1, 2, far])
        ref = lat.site(*(x // 2 for x in reps), r.randrange(lat.nb))
        legal = [o for o in legal_offsets(lat, ref, rng) if o != (0, 0, 0)]
        if not legal:
            legal = [o for o in legal_offsets(lat, ref, 1) if o != (0, 0, 0)]
        b = lat.basis_of(ref)
        if not imp:
            # Complete shells, with wildcards where nothing is asked for.
            ok = []
            for r2 in sorted({R2(o) for o in legal} or {0}):
                env = lat.env(ref, r2)
                if len(env) > 30 or not all(o == (0, 0, 0) or o in legal for o in env):
                    break
                ok.append(r2)
            if not ok:
                imp = True
                k = []
            else:
                k = [o for o in lat.env(ref, r.choice(ok)) if o != (0, 0, 0)]
                r.shuffle(k)
        if imp:
            k = r.sample(legal, min(len(legal), r.choice([1, 1, 1, 2, 3])))
        offs = [(0, 0, 0)] + k
        t, v = r.choice(possible[:-1]), possible[-1]
        if isb:
            mn = [{t: 1}] + [{"*": 1} if not imp and r.random() < 0.7 else {} for _ in k]
            up = [{t: -1}] + [{} for _ in k]
            real = [i for i in range(1, len(offs)) if "*" not in mn[i]]
            for i in real:
                if r.random() < 0.3:
                    mn[i] = {r.choice(possible): 1}
            if not real and k:
                mn[1], real = {}, [1]
            if real:
                up[r.choice(real)] = {t: 1}
            p = dict(offs=[list(o) for o in offs], min=mn, upd=up, basis=[b], rate=r.choice(RATES), origin=[0, 0, 0])
            procs.append(p)
        else:
            before = [t] + [r.choice(possible) for _ in k]
            if not imp:
                before[1:] = [x if r.random() < 0.3 else "*" for x in before[1:]]
            if k:
                j = r.randrange(1, len(offs))
                before[j] = v
                after = list(before)
                after[0], after[j] = before[j], before[0]
            else:
                after = [v]
            p = dict(offs=[list(o) for o in offs], before=before, after=after, moves=None, basis=[b],
                     rate=r.choice(RATES), origin=[0, 0, 0])
            procs.append(p)
            if r.random() < 0.7:
                q = reverse(p)
                q["rate"] = r.choice(RATES)
                procs.append(q)
    for p in procs:
        if not isb and p["before"] == p["after"]:
            p["after"] = [v if p["before"][0] != v else t] + p["before"][1:]
    case = dict(basis=basis, reps=reps, periodic=per, possible=possible, types=types, procs=procs, implicit=imp,
                seed=draw(ints(0, 10 ** 6)), rng="MT", steps=draw(ints(1, max_steps)))
    if calc:
        case["calc"] = draw(calc_spec(possible, len(procs), cutoffs=(None, 0.4, 1.0, 1.5, 2.0)))
    return case


# ----------------------------------------------------------------------------- buckets

@st.composite
def bucket(draw, possible, most=4, empty_ok=True):
    b = {}
    for t in possible:
        n = draw(st.sampled_from([0, 0, 1, 1, 2, 3, most]))
        if n:
            b[t] = n
    if not b and not empty_ok:
        b[draw(st.sampled_from(possible))] = 1
    return b


@st.composite
def bucket_process(draw, lat, types, possible, explicit, rng, max_offs=4):
    ref = draw(ints(0, lat.n - 1))
    legal = legal_offsets(lat, ref, rng)
    others = [o for o in legal if o != (0, 0, 0)]
    if explicit and draw(ints(0, 9)) != 0:
        ok = []
        for r2 in sorted({R2(o) for o in legal}):
            env = lat.env(ref, r2)
            if len(env) > 14:
                break
            if all(o in legal for o in env):
                ok.append(r2)
        offs = list(lat.env(ref, draw(st.sampled_from(ok))))
        offs.remove((0, 0, 0))
    else:
        k = draw(ints(0, min(max_offs - 1, len(others))))
        offs = list(draw(st.permutations(others))[:k]) if k else []
    offs = [(0, 0, 0)] + offs
    mn, up = [], []
    n = len(offs)
    for i in range(n):
        here = types[lat.at(ref, offs[i])]
        mode = draw(ints(0, 9))
        if mode == 0:
            mn.append({"*": 1})
            continue
        m = {}
        for t in possible:
            have = here.get(t, 0)
            if have and draw(st.booleans()):
                # The number of ways to take them has to be a number that can be represented.
                m[t] = draw(ints(1, min(have, 60)))
            elif draw(ints(0, 9)) == 0:
                m[t] = draw(ints(1, 3))
        if not m and draw(ints(0, 4)) != 0:
            t = draw(st.sampled_from(possible))
            m[t] = 1
        mn.append(m)
    for i in range(n):
        up.append({})
    real = [i for i in range(n) if "*" not in mn[i]]
    if not real:
        mn[0] = {draw(st.sampled_from(possible)): 1}
        real = [0]
    kind = draw(ints(0, 2))
    givers = [(i, t) for i in real for t in mn[i]]
    if kind <= 1 and givers and len(real) > 1:
        i, t = draw(st.sampled_from(givers))
        j = draw(st.sampled_from([r for r in real if r != i]))
        q = draw(ints(1, mn[i][t]))
        up[i] = {t: -q}
        up[j] = {t: q}
    elif givers and draw(st.booleans()):
        i, t = draw(st.sampled_from(givers))
        up[i] = {t: -draw(ints(1, mn[i][t]))}
        if draw(st.booleans()):
            t2 = draw(st.sampled_from([x for x in possible if x != t]))
            up[i][t2] = draw(ints(1, 2))
    else:
        i = draw(st.sampled_from(real))
        up[i] = {draw(st.sampled_from(possible)): draw(ints(1, 2))}
    return dict(offs=[list(o) for o in offs], min=mn, upd=up, basis=[lat.basis_of(ref)],
                rate=draw(st.sampled_from(RATES)), origin=[0, 0, 0])


@st.composite
def bucket_case(draw, max_sites=40, max_procs=3, max_steps=10, implicit=None, big=False):
    imp = draw(st.booleans()) if implicit is None else implicit
    rng = draw(st.sampled_from([1, 1, 1, 2]))
    lp = draw(lattice_part(max_sites=max_sites, need_clear=not imp and draw(st.booleans()), rng=rng))
    lat = Lattice(lp["basis"], lp["reps"], lp["periodic"])
    possible = list(draw(st.sampled_from(TYPE_SETS[:4] + [["A", "B", "C"]])))
    types = [draw(bucket(possible)) for _ in range(lat.n)]
    crowded = None
    if big and draw(ints(0, 4)) == 0:
        crowded = draw(ints(0, lat.n - 1)), draw(st.sampled_from(possible))
        types[crowded[0]] = dict(types[crowded[0]])
        types[crowded[0]][crowded[1]] = draw(st.sampled_from([13, 17, 25, 40, 100, 1500, 3000, 33000, 70000]))
    procs = [draw(bucket_process(lat, types, possible, not imp, rng)) for _ in range(draw(ints(1, max_procs)))]
    if crowded:
        # Something that takes several of the many at once.
        n = types[crowded[0]][crowded[1]]
        r = draw(ints(1 if n > 9999 else 2, 2 if n > 9999 else 3 if n > 500 else 6))
        procs[0]["offs"] = [[0, 0, 0]]
        procs[0]["min"] = [{crowded[1]: r}]
        procs[0]["upd"] = [{crowded[1]: draw(st.sampled_from([-1, 1, -r]))}]
        procs[0]["basis"] = [lat.basis_of(crowded[0])]
    return dict(lp, possible=possible, types=types, procs=procs, implicit=imp,
                seed=draw(ints(0, 10 ** 6)), rng="MT", steps=draw(ints(1, max_steps)))


# ----------------------------------------------------------------------------- long runs

SMOOTH = [0.3, 0.5, 1.0, 1.0, 1.7, 2.5, 4.0, 0.1, 9.0]


@st.composite
def calc_spec(draw, possible, nproc, cutoffs=(None, 0.4, 1.0, 1.0)):
    return dict(base=draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 3.5]), min_size=1, max_size=nproc)),
                a=draw(st.sampled_from([0.0, 0.5, 1.0, 3.0])), b=draw(st.sampled_from([0.0, 0.0, 0.7])),
                g=draw(st.sampled_from([0.0, 0.25, 1.0])), w=draw(st.booleans()), rc=draw(st.booleans()),
                fine=draw(st.sampled_from([None, None, None, 1e-3, 1e-5])),
                t=draw(st.sampled_from(possible)), cutoff=draw(st.sampled_from(list(cutoffs))))


@st.composite
def calc_case(draw, max_steps=12, max_sites=60):
    """A model with a custom rate function, on a lattice where no site sees another one twice."""
    rng = draw(st.sampled_from([1, 1, 2]))
    if draw(ints(0, 2)) == 0:
        imp = draw(st.booleans())
        lp = draw(lattice_part(max_sites=max_sites, need_clear=True, rng=rng))
        lat = Lattice(lp["basis"], lp["reps"], lp["periodic"])
        possible = list(draw(st.sampled_from(TYPE_SETS[:4] + [["A", "B", "C"]])))
        types = [draw(bucket(possible)) for _ in range(lat.n)]
        procs = [draw(bucket_process(lat, types, possible, not imp, rng)) for _ in range(draw(ints(1, 3)))]
        case = dict(lp, possible=possible, types=types, procs=procs, implicit=imp,
                    seed=draw(ints(0, 10 ** 6)), rng="MT", steps=draw(ints(1, max_steps)))
    else:
        case = draw(plain_case(max_sites=max_sites, max_procs=3, max_steps=max_steps, clear=True))
        lat = Lattice(case["basis"], case["reps"], case["periodic"])
        least = min([r for r, p in zip(case["reps"], case["periodic"]) if p and r > 1] or [9])
        rng = 1 if least < 5 else 2
    cut = [None, 0.0, 0.3, 0.5, 1.0, 1.0, 2 ** 0.5 if rng > 1 else 0.75, 1.5 if rng > 1 else 0.9]
    if not any(case["periodic"]):
        # Up to the whole lattice.
        cut += [2.0, 3.0, 60.0, 1e3, 1e9]
    case["calc"] = draw(calc_spec(case["possible"], len(case["procs"]), cutoffs=cut))
    crowd(draw, case)
    return case


def crowd(draw, case):
    """Some sites with many more particles than the others."""
    if isinstance(case["types"][0], dict) and draw(ints(0, 2)) == 0:
        types = [dict(t) for t in case["types"]]
        for _ in range(draw(ints(1, 3))):
            s = draw(ints(0, len(types) - 1))
            t = draw(st.sampled_from(case["possible"]))
            if t in types[s] or draw(st.booleans()):
                types[s][t] = types[s].get(t, 0) + draw(st.sampled_from([7, 14, 15, 16, 17, 31, 33, 60, 120, 254, 300]))
        case["types"] = types


@st.composite
def ergodic_case(draw, steps, max_sites=12, custom=True):
    """A small model that never runs out of events: every change has a reverse.  Includes a
    process that is never possible."""
    kind = draw(st.sampled_from(["plain", "plain", "bucket"]))
    calc = custom and draw(ints(0, 2)) == 0
    lp = draw(lattice_part(max_sites=max_sites, need_clear=True, rng=1, max_basis=2, dims=1))
    lat = Lattice(lp["basis"], lp["reps"], lp["periodic"])
    procs = []
    if kind == "plain":
        n = draw(ints(2, 3))
        live = ["A", "B", "C"][:n]
        possible = live + ["Z"]
        types = draw(st.lists(st.sampled_from(live), min_size=lat.n, max_size=lat.n))
        b = draw(ints(0, lat.nb - 1))

        def flip(x, y, b):
            return dict(offs=[[0, 0, 0]], before=[x], after=[y], moves=None, basis=[b],
                        rate=draw(st.sampled_from(SMOOTH)), origin=[0, 0, 0])
        for i in range(n):
            procs.append(flip(live[i], live[(i + 1) % n], b))
        if draw(st.booleans()):
            procs.append(flip(live[0], live[-1], b))
            procs.append(flip(live[-1], live[0], b))
        ref = lat.site(lat.reps[0] // 2, lat.reps[1] // 2, lat.reps[2] // 2, b)
        others = [o for o in legal_offsets(lat, ref, 1) if o != (0, 0, 0)]
        if others:
            o = draw(st.sampled_from(others))
            for x, y in ((live[0], live[1]), (live[1], live[0])):
                procs.append(dict(offs=[[0, 0, 0], list(o)], before=[x, y], after=[y, x], moves=None, basis=[b],
                                  rate=draw(st.sampled_from(SMOOTH)), origin=[0, 0, 0]))
        dead = flip("Z", "A", b)
    else:
        live = ["A", "B"]
        possible = ["A", "B", "Z"]
        types = [draw(bucket(live, most=6)) for _ in range(lat.n)]
        b = draw(ints(0, lat.nb - 1))

        def one(mn, up, rate):
            return dict(offs=[[0, 0, 0]], min=[mn], upd=[up], basis=[b], rate=rate, origin=[0, 0, 0])
        for t in live:
            procs.append(one({}, {t: 1}, draw(st.sampled_from([0.5, 1.0, 3.0]))))
            procs.append(one({t: 1}, {t: -1}, draw(st.sampled_from([0.5, 1.0, 0.3]))))
        procs.append(one({"A": 2}, {"A": -2, "B": 1}, draw(st.sampled_from([0.2, 1.0]))))
        procs.append(one({"B": 1, "A": 1}, {"B": -1, "A": 1}, draw(st.sampled_from([0.2, 1.0]))))
        dead = one({"Z": 1}, {"Z": -1}, 1.0)
    order = draw(st.permutations(list(range(len(procs)))))
    procs = [procs[i] for i in order]
    procs.insert(draw(st.sampled_from([0, 0, len(procs), 1])), dead)
    case = dict(lp, possible=possible, types=types, procs=procs, implicit=True, seed=draw(ints(0, 10 ** 6)),
                rng=draw(st.sampled_from(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"])), steps=steps)
    if calc:
        case["calc"] = draw(calc_spec(possible, len(procs)))
    return case


@st.composite
def frozen_case(draw, steps, max_sites=24):
    """A model that falls back to its first state right after every event, by reverse processes that are very
    much faster, so that the choice between the events of one state is made many times."""
    import random
    lp = draw(lattice_part(max_sites=max_sites, need_clear=True, rng=1, max_basis=2))
    lat = Lattice(lp["basis"], lp["reps"], lp["periodic"])
    r = random.Random(draw(ints(0, 10 ** 9)))
    isb = draw(ints(0, 2)) > 0
    n = r.randint(1, 3)
    fast = 1e9
    procs, back = [], []
    for k in range(n):
        x = "P%d" % k
        b = r.sample(range(lat.nb), r.randint(1, lat.nb))
        rate = r.choice([1.0, 1.0, 2.0, 0.3])
        if isb:
            t, q = r.choice("AB"), r.choice([1, 1, 1, 2, 2, 3])
            mn, up = {t: q}, {t: -q, x: 1}
            if r.random() < 0.3:
                u = "B" if t == "A" else "A"
                mn[u], up[u] = 1, -1
            rev = dict(min=[{x: 1}], upd=[{a: -d for a, d in up.items()}])
            one = dict(min=[mn], upd=[up])
        else:
            t = r.choice("AB")
            one, rev = dict(before=[t], after=[x], moves=None), dict(before=[x], after=[t], moves=None)
        for d, q, to in ((one, rate, procs), (rev, rate * fast, back)):
            to.append(dict(d, offs=[[0, 0, 0]], basis=b, rate=q, origin=[0, 0, 0]))
    most = r.choice([3, 3, 6, 12])
    if isb:
        types = [{t: q for t in "AB" for q in [r.randint(0, most)] if q} for _ in range(lat.n)]
    else:
        types = [r.choice("AB") for _ in range(lat.n)]
    case = dict(lp, possible=["A", "B"] + ["P%d" % k for k in range(n)], types=types, procs=procs + back, implicit=True,
                seed=draw(ints(0, 10 ** 6)), rng=draw(st.sampled_from(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"])),
                steps=steps)
    # Nothing is possible: make it so.
    for k in range(n):
        s = r.choice([i for i in range(lat.n) if lat.basis_of(i) in procs[k]["basis"]])
        if isb:
            for t, q in procs[k]["min"][0].items():
                types[s][t] = max(q, types[s].get(t, 0))
        elif k == 0:
            types[s] = procs[k]["before"][0]
    if draw(ints(0, 3)) == 0:
        case["calc"] = draw(calc_spec(case["possible"], 2 * n))
        base = [r.choice([0.5, 1.0, 2.0]) for _ in range(n)]
        case["calc"].update(base=base + [q * fast for q in base], b=0.0, rc=False, fine=None)
        if r.random() < 0.5:
            case["calc"].update(g=1.0)
    return case


# ----------------------------------------------------------------------------- large in some way

@st.composite
def heavy_case(draw, sites=2500, steps=200, bucket=None, calc=False):
    """A model that is large in some way: many sites, types, processes, basis points, particles or
    events.  Drawn from a few numbers, so that its size is not limited by Hypothesis."""
    import random
    r = random.Random(draw(ints(0, 10 ** 9)))
    isb = draw(ints(0, 3)) == 0 if bucket is None else bucket
    ways = set(draw(st.lists(st.sampled_from(["sites", "types", "procs", "basis", "steps", "crowd"]), min_size=1, max_size=3)))
    nb = r.randint(4, 12) if "basis" in ways else draw(ints(1, 2))
    nt = r.randint(8, 40) if "types" in ways else draw(ints(2, 4))
    np = r.randint(10, 45) if "procs" in ways else draw(ints(2, 4))
    top = r.randint(300, draw(st.sampled_from([310, 1100, sites]))) if "sites" in ways else r.randint(8, 60)
    n_steps = r.randint(min(60, steps), steps) if "steps" in ways else draw(ints(2, 15))
    if "sites" in ways and "procs" in ways:
        top = min(top, 500)
    # One in every cube of six grid units at most.
    spots = [(a, b, c) for a in (0, 8, 16) for b in (0, 8, 16) for c in (0, 12)]
    basis = [(0, 0, 0)] + r.sample(spots[1:], nb - 1)
    cells = max(3, top // nb)
    dim = r.choice([1, 2, 2, 3])
    axes = r.sample([0, 1, 2], dim)
    reps, per = [1, 1, 1], [False] * 3
    for q, d in enumerate(axes):
        left = dim - q - 1
        reps[d] = max(5 if calc else 3, min(int(round(cells ** (1.0 / (left + 1)) * (r.uniform(0.4, 1.6) if left else 1))), cells))
        cells = max(1, cells // reps[d])
        per[d] = r.random() < 0.8
    lat = Lattice(basis, reps, per)
    order = r.choice([0, 1])
    names = ["T%d" % i if order else "%s%s" % (chr(97 + (7 * i) % 26), chr(65 + i // 26)) for i in range(nt)]
    r.shuffle(names)
    share = r.choice([0.3, 0.6, 0.9])
    if isb:
        most = 30 if "crowd" in ways else 3
        few = lambda: r.sample(names, min(nt, r.choice([1, 1, 2, 3])))  # noqa: E731
        types = [{t: r.randint(1, most) for t in few()} if r.random() < share else {} for _ in range(lat.n)]
        if "crowd" in ways and r.random() < 0.3:
            # Very many on one site.
            full = r.choice([h for h in types if h] or [types[0]])
            full[r.choice(list(full) or names)] = r.choice([130, 300, 1000, 33000, 66000])
            n_steps = min(n_steps, 15)
    else:
        types = [r.choice(names) if r.random() < share else names[0] for _ in range(lat.n)]
    procs = []
    while len(procs) < np:
        ref = r.randrange(lat.n)
        if r.random() < 0.5:
            ref = lat.site(*(x // 2 for x in reps), ref % nb)
        # Neighbours in the same or the adjoining cells, nearer than half a period.
        near = []
        p, c = lat.pos[ref], lat.cell_of(ref)
        for _ in range(12):
            e = [r.choice([-1, 0, 1]) if reps[d] > 1 else 0 for d in range(3)]
            b = lat.basis[r.randrange(nb)]
            o = tuple(b[d] + D * (c[d] + e[d]) - p[d] for d in range(3))
            if o == (0, 0, 0) or o in near or lat.at(ref, o) is None:
                continue
            if any(per[d] and reps[d] > 1 and 4 * R2(o) >= (D * reps[d]) ** 2 for d in range(3)):
                continue
            near.append(o)
        offs = [(0, 0, 0)] + near[: r.choice([0, 1, 1, 1, 2, 3])]
        here = [types[lat.at(ref, o)] for o in offs]
        rate = r.choice(RATES)
        d = dict(offs=[list(o) for o in offs], basis=[ref % nb], rate=rate, origin=[0, 0, 0])
        if isb:
            mn = [{r.choice(list(h)): 1} if h else {} for h in here]
            if not mn[0]:
                mn[0] = {r.choice(names): 1}
            t = next(iter(mn[0]))
            if "crowd" in ways and here[0].get(t, 0) > 2:
                mn[0][t] = r.randint(1, min(4, here[0][t]))
            up = [{} for _ in offs]
            up[0] = {t: -1}
            if len(offs) > 1:
                up[-1] = {t: 1}
            elif r.random() < 0.7:
                up[0][r.choice([x for x in names if x != t])] = 1
            d.update(min=mn, upd=up)
            procs.append(d)
            continue
        before = [h if r.random() < 0.8 else r.choice(names) for h in here]
        after = list(before)
        diff = [i for i in range(1, len(offs)) if before[i] != before[0]]
        if diff and r.random() < 0.7:
            i = r.choice(diff)
            after[0], after[i] = before[i], before[0]
        else:
            after[0] = r.choice([x for x in names if x != before[0]])
        d.update(before=before, after=after, moves=None)
        procs.append(d)
        if len(procs) < np and r.random() < 0.7:
            procs.append(dict(reverse(d), rate=r.choice(RATES)))
    case = dict(basis=[list(b) for b in basis], reps=reps, periodic=per, possible=names, types=types, procs=procs, implicit=True,
                seed=draw(ints(0, 10 ** 6)), rng=r.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"]), steps=n_steps)
    if calc:
        case["calc"] = draw(calc_spec(names, np, cutoffs=(None, 0.4, 1.0)))
        # The reference asks for every rate at every step.
        case["steps"] = max(1, min(n_steps, 100000 // (lat.n * len(procs))))
    return case


@st.composite
def bulky_case(draw, max_steps=12, bucket=None, implicit=None, clear=False, calc=False):
    """Processes that describe much of the surroundings of a site and change many sites at once."""
    import random
    r = random.Random(draw(ints(0, 10 ** 9)))
    isb = draw(ints(0, 3)) == 0 if bucket is None else bucket
    imp = draw(st.booleans()) if implicit is None else implicit
    rng = r.choice([1, 1, 1, 2])
    lat = None
    while lat is None or lat.n > 90 or lat.n < 6:
        nb = r.choice([1, 1, 2, 3])
        basis = [[0, 0, 0]] + [list(b) for b in r.sample([b for b in BASIS_MENU if b != (0, 0, 0)], nb - 1)]
        reps, per = [1, 1, 1], [False] * 3
        for d in r.sample([0, 1, 2], r.choice([1, 2, 2, 3, 3])):
            per[d] = r.random() < 0.5
            reps[d] = r.randint(2 * rng + 1, 2 * rng + 2) if per[d] else r.randint(2, 4)
            if r.random() < 0.2:
                reps[d] += r.randint(1, 6)
        lat = Lattice(basis, reps, per)
    possible = ["A", "B", "C", "V"][: r.choice([2, 3, 3, 4])]
    if isb:
        types = [{t: r.choice([1, 1, 2, 3]) for t in possible if r.random() < 0.6} for _ in range(lat.n)]
    else:
        types = [r.choice(possible) for _ in range(lat.n)]
    procs = []
    for _ in range(draw(ints(1, 3))):
        ref = r.randrange(lat.n)
        legal = [o for o in legal_offsets(lat, ref, rng) if o != (0, 0, 0)]
        if imp:
            k = r.sample(legal, min(len(legal), r.choice([5, 8, 12, 20, 26])))
        else:
            ok = [[]]
            for r2 in sorted({R2(o) for o in legal}):
                env = [o for o in lat.env(ref, r2) if o != (0, 0, 0)]
                if len(env) > 30 or not all(o in legal for o in env):
                    break
                ok.append(env)
            k = list(ok[-1] if r.random() < 0.7 else r.choice(ok))
            r.shuffle(k)
        offs = [(0, 0, 0)] + k
        here = [types[lat.at(ref, o)] for o in offs]
        n = len(offs)
        p = dict(offs=[list(o) for o in offs], basis=[lat.basis_of(ref)], origin=[0, 0, 0])
        many = r.sample(range(n), r.randint(min(n, 4), n))
        if isb:
            mn = [{t: r.randint(1, q) for t, q in h.items() if r.random() < 0.7} for h in here]
            up = [{} for _ in offs]
            for i in many:
                t = r.choice(possible)
                if mn[i].get(t):
                    up[i][t] = -r.randint(1, mn[i][t])
                else:
                    up[i][t] = 1
                if r.random() < 0.3:
                    up[i][r.choice([x for x in possible if x != t])] = 1
            back = [{t: max(q, 0) for t, q in m.items()} for m in mn]
            for i in range(n):
                back[i] = {t: back[i].get(t, 0) + up[i].get(t, 0) for t in set(back[i]) | set(up[i])}
                back[i] = {t: q for t, q in back[i].items() if q > 0}
            procs.append(dict(p, min=mn, upd=up, rate=r.choice(RATES)))
            procs.append(dict(p, min=back, upd=[{t: -q for t, q in u.items()} for u in up], rate=r.choice(RATES)))
            continue
        before = list(here)
        after, moves = list(before), None
        if len(many) > 1 and r.random() < 0.6:
            # Everything goes round, in one circle or several.
            moves = []
            while many:
                c = many[: r.choice([2, 3, 5, 9, len(many)])]
                if len(many) - len(c) == 1:
                    c = list(many)
                many = many[len(c):]
                for a, b in zip(c, c[1:] + c[:1]):
                    if a != b:
                        after[b] = before[a]
                        moves.append([a, b])
            if after == before:
                after, moves, many = list(before), None, list(range(n))
        if moves is None:
            for i in many:
                after[i] = r.choice([t for t in possible if t != before[i]])
        rest = [i for i in range(n) if after[i] == before[i] and not (moves and any(i in m for m in moves))]
        for i in rest:
            if r.random() < 0.5:
                before[i] = after[i] = "*"
        p.update(before=before, after=after, moves=moves, rate=r.choice(RATES))
        procs.append(p)
        procs.append(dict(reverse(p), rate=r.choice(RATES)))
    case = dict(basis=basis, reps=reps, periodic=per, possible=possible, types=types, procs=procs, implicit=imp,
                seed=draw(ints(0, 10 ** 6)), rng=r.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"]),
                steps=draw(ints(1, max_steps)))
    if calc:
        case["calc"] = draw(calc_spec(possible, len(procs), cutoffs=(None, 0.4, 1.0, 1.0 * rng)))
    return case


def mostly(usual, rare, share):
    """One of share cases is a rare one."""
    return st.integers(0, share - 1).flatmap(lambda q: rare if q == share - 1 else usual)


# Names of types as they may be, instead of the short ones.
WORDS = ["adsorbed_oxygen_bridge", "adsorbed_oxygen_top", "x", "C_2-H.5+", "[0]", "0x1f", "1,2", "#none", "None", "\u00d6-\u03b1", "%s", "{0}"]
ODD = WORDS + ["a rather long name", "(1,'q')", "A'", 'say "so"', "back\\slash", "two\nlines", "tab\t", " ", "\\n"]


def renamed(draw, case, words):
    """The case with other names for the types."""
    if len(case["possible"]) > len(words):
        return case
    m = dict(zip(case["possible"], draw(st.permutations(words))))
    m["*"] = "*"

    def conv(e):
        return {m[t]: n for t, n in e.items()} if isinstance(e, dict) else m[e]
    return dict(case, possible=[m[t] for t in case["possible"]], types=[conv(t) for t in case["types"]],
                procs=[dict(p, **{f: [conv(e) for e in p[f]] for f in ("before", "after", "min", "upd") if f in p})
                       for p in case["procs"]])
