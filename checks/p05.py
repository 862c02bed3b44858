"""The simulation time."""
import math

from hypothesis import strategies as st

from KMCLib import KMCControlParameters, KMCAnalysisPlugin
from lib import gen, sut, calc as C
from lib.common import need
from lib.common_kmc import load
from checks.p04 import event_rates, ZEROS, fixed_cases as zero_cases

VARIANT = "prod"
EXAMPLES = {"quick": 24, "thorough": 300}
RULE = ("a small model is run for thousands of steps through the public run function; each waiting time is multiplied "
        "by the total rate computed from the reference rates before the event; the products must be Exp(1): "
        "Kolmogorov-Smirnov, mean, lag correlation and correlation with the event chosen, each at about 1e-10; "
        "non-trivial when the total rate took at least three values and 1000 steps were taken")
ASSUMPTIONS = ["the events possible at each step are taken from the event lists (decided by P01)"]
CASE_TIMEOUT = 240
MIN_NONTRIVIAL = 20


@st.composite
def scaled(draw, steps):
    """The same with all rates on another scale."""
    case = draw(gen.ergodic_case(steps=steps))
    f = draw(st.sampled_from([1.0, 1.0, 1e-9, 1e9, 1e13, 3e-4, 1e-16, 1e25]))
    for p in case["procs"]:
        p["rate"] *= f
    if case.get("calc"):
        case["calc"]["base"] = [b * f for b in case["calc"]["base"]]
    case["parts"] = draw(st.sampled_from([1, 1, 2, 3]))
    return case


def strategy(tier):
    return scaled(steps=3000 if tier == "quick" else 20000)


def fixed_cases(tier):
    for c in zero_cases(tier):
        yield dict(c, parts=1)
    n = 60000 if tier == "quick" else 1000000
    for i, rng in enumerate(["MT", "MINSTD", "RANLUX24", "RANLUX48"]):
        for reverse in ([1.0, 3.0] if tier == "thorough" else [[1.0, 3.0][i % 2]]):
            yield dict(tail=True, basis=[[0, 0, 0]], reps=[4, 4, 1], periodic=[True, True, True], types=["A"] * 16,
                       possible=["A", "B"], implicit=True, bucket=False, seed=77 + i, steps=n, rng=rng,
                       procs=[dict(offs=[[0, 0, 0]], before=[a], after=[b], basis=[0], rate=q, moves=None,
                                   origin=[0, 0, 0]) for a, b, q in (("A", "B", 0.5), ("B", "A", 0.5 * reverse))])


def tail(case):
    """Very long and very short waiting times, in a run long enough to have some."""
    m, cfg, it = sut.model(case)
    times, places = [], []

    class Watch(KMCAnalysisPlugin):
        def setup(self, step, time, configuration):
            times.append(time)

        def registerStep(self, step, time, configuration):
            times.append(time)
            places.append(configuration.latestEventProcess())

    m.run(KMCControlParameters(number_of_steps=case["steps"], dump_interval=10 ** 9, analysis_interval=1,
                               seed=case["seed"], rng_type=case["rng"]), analysis=[Watch()])
    N = len(times) - 1
    need(N == case["steps"], "%d steps were registered instead of %d", N, case["steps"])
    up, down = (p["rate"] for p in case["procs"])
    nb, xs = 0, []
    for i, k in enumerate(places):
        xs.append((times[i + 1] - times[i]) * ((16 - nb) * up + nb * down))
        nb += (1, -1)[k]
    for what, n, p in ([("longer than %g" % t, sum(x > t for x in xs), math.exp(-t)) for t in (4.0, 5.0, 6.0, 7.0, 8.0)] +
                       [("shorter than %g" % t, sum(x < t for x in xs), -math.expm1(-t)) for t in (0.001, 0.003, 0.01, 0.1)]):
        f = n / N
        kl = (f * math.log(f / p) if n else 0.0) + ((1 - f) * math.log((1 - f) / (1 - p)) if n < N else 0.0)
        need(N * kl < 24.0, "%d of %d waiting times are %s times the mean, expected %.1f", n, N, what, N * p)
    need(all(x > 0 for x in xs), "a waiting time is not positive")
    different = len(set("%.7g" % x for x in xs))
    need(different > 0.8 * N, "only %d of %d waiting times are different", different, N)
    return dict(nontrivial=True, stats=dict(waiting_times=N))


def run(case, ctx):
    if case.get("tail"):
        return tail(case)
    lat, procs = load(case)
    bucket = procs[0].bucket
    m, cfg, it = sut.model(case, calc=C.calculator(case["calc"]) if case.get("calc") else None)
    rec = []

    class Watch(KMCAnalysisPlugin):
        def look(self, time):
            cpp = m._backend()
            types = sut.types_of(cfg, bucket)
            ev = event_rates(case, lat, procs, types, sut.site_lists(cpp))
            rec.append((time, sum(r for _, _, r in ev), cfg.latestEventProcess() if rec else -1,
                        cfg.latestEventSite() if rec else -1))

        def setup(self, step, time, configuration):
            if not rec:
                self.look(time)
            else:
                need(time == rec[-1][0], "a second run starts at time %r, the first ended at %r", time, rec[-1][0])

        def registerStep(self, step, time, configuration):
            self.look(time)

    n = case["steps"] // case["parts"]
    for part in range(case["parts"]):
        m.run(KMCControlParameters(number_of_steps=n, dump_interval=10 ** 9, analysis_interval=1,
                                   seed=case["seed"] + 1000 * part, rng_type=case["rng"]), analysis=[Watch()])
    need(rec[0][0] == 0.0, "a new model starts at time %r", rec[0][0])
    need(len(rec) == n * case["parts"] + 1, "%d steps were registered instead of %d", len(rec) - 1, n * case["parts"])
    xs, ks, ss = [], [], []
    for a, b in zip(rec, rec[1:]):
        need(b[0] > a[0] and b[0] < 1e300, "the time went from %r to %r", a[0], b[0])
        xs.append((b[0] - a[0]) * a[1])
        ks.append(b[2])
        ss.append(b[3])
    N = len(xs)
    if N < 1000:
        return dict(nontrivial=False)
    v = sorted(1.0 - math.exp(-min(x, 700.0)) for x in xs)
    ks_d = max(max((i + 1.0) / N - v[i], v[i] - float(i) / N) for i in range(N))
    need(ks_d * math.sqrt(N) < 3.6, "waiting times do not follow the total rate: KS distance %.4f for %d steps "
         "(mean of time times rate %.4f, expected 1)", ks_d, N, sum(xs) / N)
    z = (sum(xs) - N) / math.sqrt(N)
    need(abs(z) < 7.5, "the mean of waiting time times total rate is %.4f for %d steps, expected 1", sum(xs) / N, N)
    u = [math.exp(-min(x, 700.0)) - 0.5 for x in xs]

    def corr(f, what):
        mean = sum(f) / len(f)
        var = sum((q - mean) ** 2 for q in f)
        if var <= 0:
            return
        zz = sum(a * (q - mean) for a, q in zip(u, f)) / math.sqrt(var / 12.0)
        need(abs(zz) < 7.0, "the waiting times are correlated with %s (%.1f standard deviations)", what, zz)

    corr([0.0] + u[:-1], "the one before")
    corr([0.0, 0.0] + u[:-2], "the one two steps before")
    corr(ks, "the process that is performed")
    corr(ss, "the site at which the process is performed")
    # Against high and low total rates separately.
    rates = sorted(set(r[1] for r in rec))
    if len(rates) > 1:
        corr([r[1] / rates[-1] for r in rec[:-1]], "the total rate (beyond the proportionality)")
        corr([r[1] / rates[-1] for r in rec[1:]], "the total rate after the event")
    return dict(nontrivial=len(rates) >= 3, stats=dict(waiting_times=N))
