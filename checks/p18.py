"""Mean square displacements: the average over what the particles did."""
import io
import math

import numpy
from hypothesis import strategies as st

from KMCLib import OnTheFlyMSD

from lib import gen, sut, runs
from lib.common import need, close
from lib.common_kmc import load
from lib.model import D, World

VARIANT = "prod"
EXAMPLES = {"quick": 500, "thorough": 8000}
RULE = ("a random model with moving particles and a random cell is run with one to three mean square displacement analyses "
        "with random bins and histories, in one or two runs; counts, averages and times are compared with those from the "
        "path of every particle in the reference; non-trivial with at least ten displacements in three bins or more")
ASSUMPTIONS = ["one particle per site", "every step is analysed (interval one)",
               "a position is recorded when an event moves a particle or changes its type, and the particle is of the tracked "
               "type after the event; its earlier positions are kept while it is of another type"]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=40, max_procs=3, movers=True), gen.plain_case(max_sites=12, max_procs=2, movers=True),
                          gen.bulky_case(bucket=False)))
    long = draw(st.integers(0, 13)) == 13
    if long:
        case = draw(gen.heavy_case(sites=400, bucket=False))
    f = st.sampled_from([-0.5, 0.0, 0.0, 0.25, 1e-3])
    case["cell"] = [[2.5, draw(f), draw(f)], [draw(f), 3.0, draw(f)], [draw(f), draw(f), 4.123456789]]
    one = st.fixed_dictionaries(dict(
        history=st.one_of(st.integers(2, 5), st.integers(2, 60 if long else 12)), bins=st.integers(1, 300 if long else 30),
        t=st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0, 10.0, 100.0, 1e-12, 1e9]), track=st.sampled_from(case["possible"])))
    case["msd"] = draw(st.lists(one, min_size=1, max_size=3))
    case["parts"] = draw(st.lists(st.tuples(st.integers(1, 400 if long else 60), st.integers(1, 10 ** 6)), min_size=1, max_size=2))
    case["again"] = draw(st.booleans())
    case.pop("steps", None)
    return case


def strategy(tier):
    return cases()


def expected(spec, steps, start, types_by_id, cell):
    """steps: (time, moved ids, positions by id, types by id)."""
    H, N = spec["history"], spec["bins"]
    size = spec["t"] / N
    hist = {}
    t0, pos0 = start
    for a, t in enumerate(types_by_id):
        if t == spec["track"]:
            hist[a] = [(pos0[a], t0)]
    summed = numpy.zeros((N, 3))
    count = [0] * N
    by_lag = [[0] * N for _ in range(H - 1)]
    lags = [0] * H
    for time, moved, pos, types in steps:
        for a in moved:
            if types[a] != spec["track"]:
                continue
            h = hist.setdefault(a, [])
            h.insert(0, (pos[a], time))
            del h[H:]
            for i in range(1, len(h)):
                lags[i - 1] += 1
                dt = h[0][1] - h[i][1]
                b = int(dt / size)
                if b < N:
                    d = numpy.dot([(h[0][0][k] - h[i][0][k]) / D for k in range(3)], cell)
                    summed[b] += d * d
                    count[b] += 1
                    by_lag[i - 1][b] += 1
    return summed, count, by_lag, lags


def factor(n, K):
    if n <= K:
        return math.sqrt(2.0) * math.sqrt((4 * n * n * K + 2 * K + n - n ** 3) / (6.0 * n * K * K))
    return math.sqrt(2.0) * math.sqrt(1 + (K ** 3 - 4 * n * K * K + 4 * n - K) / (6.0 * n * n * K))


def run(case, ctx):
    lat, procs = load(case)
    m, cfg, it = sut.model(case)
    cell = numpy.array(case["cell"])
    world = World(lat, case["types"])
    msd = None
    rich = False
    for part, (n, seed) in enumerate(case["parts"]):
        where = "run %d: " % (part + 1)
        rec = runs.Recorder(False, ids=True)
        if msd is None or case["again"]:
            msd = [OnTheFlyMSD(history_steps=s["history"], n_bins=s["bins"], t_max=s["t"], track_type=s["track"])
                   for s in case["msd"]]
        runs.run(m, case, n, seed=seed, analysis=msd + [rec])
        if not rec.log:
            break
        at = {a: s for s, a in enumerate(world.id_at)}
        start = (rec.log[0][2], list(world.id_pos))
        types0 = [world.types[at[a]] for a in range(lat.n)]
        steps = []
        for e in rec.log[1:]:
            if e[0] != "analysis.step":
                continue
            before = list(world.id_pos)
            k, site = e[4]
            p = procs[k]
            moved = {world.id_at[lat.at(site, o)] for o, b, a in zip(p.offs, p.before, p.after) if b != a and b != "*"}
            world.apply(p, site)
            moved |= {a for a in range(lat.n) if world.id_pos[a] != before[a]}
            at = {a: s for s, a in enumerate(world.id_at)}
            steps.append((e[2], moved, list(world.id_pos), [world.types[at[a]] for a in range(lat.n)]))
        for k, (spec, a) in enumerate(zip(case["msd"], msd)):
            w = where + "analysis %d of %r: " % (k, spec["track"])
            summed, count, by_lag, lags = expected(spec, steps, start, types0, cell)
            N = spec["bins"]
            got = [int(x) for x in a.binCounters()]
            need(got == count, w + "numbers of values in the bins %s, expected %s", got, count)
            res = numpy.array(a.results())
            need(res.shape == (7, N), w + "the results have the shape %s", res.shape)
            x, y, z = summed.T
            size = spec["t"] / N
            for row, s in enumerate((x, y, z, x + y, x + z, y + z, x + y + z)):
                for b in range(N):
                    e = s[b] / count[b] if count[b] else 0.0
                    need(close(res[row][b], e, 1e-6, 1e-9), w + "row %d of the results is %r in bin %d, expected %r",
                         row, res[row][b], b, e)
            need(all(close(t, (b + 0.5) * size, 1e-9, 0) for b, t in enumerate(a.timeSteps())) and len(a.timeSteps()) == N,
                 w + "times %s with bins of %r", list(a.timeSteps()), size)
            # Estimated errors: where there are any, as published for free diffusion.
            sd = numpy.array(a.stdDev())
            for b in range(N):
                neff = sum((i + 1.0) * by_lag[i][b] for i in range(len(by_lag))) / max(count[b], 1)
                col = sd[:, b]
                need(not numpy.isnan(col).any() and (col >= 0).all(), w + "errors %s in bin %d", col, b)
                if col.any():
                    need(count[b] > 0, w + "errors %s in the empty bin %d", col, b)
                    ks = sorted({lags[j] for j in range(int(neff) - 1, int(neff) + 3) if 0 <= j < len(lags) and lags[j]})
                    f = [factor(neff, K) for K in ks]
                    w3 = [1, 1, 1] + [math.sqrt(0.5)] * 3 + [math.sqrt(1 / 3.0)]
                    need(any(all(close(col[r], res[r][b] * q * w3[r], 1e-6, 1e-9) for r in range(7)) for q in f),
                         w + "errors %s in bin %d with results %s, %r steps on average", col, b, res[:, b], neff)
            cut = a.safeCutoff()
            last = by_lag[-1]
            limit = 0.01 * max(last)
            e = next((b for b in range(N) if last[b] > limit), N)
            need(cut == e, w + "safe cutoff %s, expected %s", cut, e)
            out = io.StringIO()
            a.printResults(out)
            lines = out.getvalue().split("\n")
            need(len(lines) == e + 2 and lines[0].split()[0] == "TIME", w + "%d lines printed, expected %d", len(lines), e + 2)
            for b, line in enumerate(lines[1:-1]):
                v = [float(q) for q in line.split()]
                neff = sum((i + 1.0) * by_lag[i][b] for i in range(len(by_lag))) / max(count[b], 1)
                want = [(b + 0.5) * size] + list(res[:, b]) + list(sd[:, b]) + [neff]
                need(len(v) == 16 and all(close(p, q, 1e-5, 1e-9) for p, q in zip(v, want)), w + "line %d: %s, expected %s",
                     b, line, want)
            rich |= sum(count) >= 10 and sum(c > 0 for c in count) >= 3
        if cfg is None:
            break
    return dict(nontrivial=bool(rich), stats={"runs": len(case["parts"])})
