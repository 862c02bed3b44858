"""Rate functions compiled into the package do what the same functions in Python do."""
import math
import random

from hypothesis import strategies as st

from KMCLib import KMCRateCalculatorPlugin
from KMCLib.Backend import Custom

from lib import gen, sut, calc as C
from lib.common import need, close
from lib.common_kmc import load
from lib.model import verdict, OPEN

VARIANT = "prod"
EXAMPLES = {"quick": 225, "thorough": 5000}
RULE = ("a random model is run from the same seed with a rate function in Python and with one that computes the same in "
        "C++, chosen by its name (those of the package on the lattices they are made for, and one that the check "
        "compiles into the package, as users do); event lists, rates, events and the number of evaluations are "
        "compared at every step, and the rates with the reference; non-trivial when two events took place and the "
        "rates of one process differed between sites or in time")
ASSUMPTIONS = ["the formulas are the same up to rounding, so that a different event is not a matter of the last digit"]


class Ising(KMCRateCalculatorPlugin):
    def rate(self, geometry, before, after, rate_constant, process_number, coordinate):
        up = sum(1 for t in before[1:5] if t == "U")
        diff = (4 - up) - up
        return min(1.0, math.exp(diff if process_number == 0 else -diff))

    def cutoff(self):
        return 1.0

    def cacheRates(self):
        return True


class Moves(KMCRateCalculatorPlugin):
    """A creation and moves that are slow where the goal is occupied by the second type."""
    def rate(self, geometry, before, after, rate_constant, process_number, coordinate):
        if process_number == 0:
            return 0.1
        if process_number > 4:
            return 1.0
        at = {1: (1, 0, 0), 2: (-1, 0, 0), 3: (0, 1, 0), 4: (0, -1, 0)}[process_number]
        for g, b in zip(geometry, before):
            if all(abs(x - y) < 1e-6 for x, y in zip(g, at)):
                return 0.1 if any(t == SECOND and n for n, t in b) else 1.0

    def cutoff(self):
        return 1.0


SECOND = "B"


@st.composite
def package(draw):
    """The models that the functions of the package are written for."""
    nx, ny = draw(st.integers(3, 9)), draw(st.integers(3, 9))
    r = random.Random(draw(st.integers(0, 10 ** 9)))
    case = dict(basis=[[0, 0, 0]], reps=[nx, ny, 1], periodic=[True, True, False], implicit=True,
                seed=draw(st.integers(1, 10 ** 6)), rng="MT", steps=draw(st.integers(5, 60)))
    if draw(st.booleans()):
        # The function counts "U" and takes process 0 for the flip of these.
        def flip(a, b):
            return dict(offs=[[0, 0, 0]], before=[a], after=[b], basis=[0], rate=1.0, moves=None, origin=[0, 0, 0])
        case.update(kind="ising", possible=["U", "D"], procs=[flip("U", "D"), flip("D", "U")],
                    types=[r.choice("UD") for _ in range(nx * ny)])
    else:
        def proc(offs, mn, up):
            return dict(offs=offs, min=mn, upd=up, basis=[0], rate=1.0, origin=[0, 0, 0])
        moves = [proc([[0, 0, 0], o], [{"A": 1}, {}], [{"A": -1}, {"A": 1}])
                 for o in ([24, 0, 0], [-24, 0, 0], [0, 24, 0], [0, -24, 0])]
        if draw(st.booleans()):
            moves.append(proc([[0, 0, 0]], [{"A": 1, "B": 1}], [{"A": -1}]))
        case.update(kind="buckets", possible=["A", "B"], procs=[proc([[0, 0, 0]], [{}], [{"A": 1}])] + moves,
                    types=[{t: n for t in "AB" for n in [r.choice([0, 0, 1, 2])] if n} for _ in range(nx * ny)])
    return case


@st.composite
def cases(draw):
    which = draw(st.integers(0, 4))
    if which == 0 or not hasattr(Custom, "VerifCalculator"):
        return draw(package())
    if which == 1:
        case = draw(gen.wide_case(max_sites=80, max_steps=20, clear=True, calc=True, far=2))
    else:
        case = draw(gen.calc_case(max_steps=20))
    case["kind"] = "twin"
    spec = case["calc"]
    if spec["cutoff"] is None:
        spec["cutoff"] = 1.0
    spec["wide"] = False
    if draw(st.booleans()):
        n = len(case["procs"])
        ex = draw(st.lists(st.integers(0, n - 1), max_size=draw(st.sampled_from([2, n])), unique=True)) if draw(st.booleans()) else []
        spec.update(cache=True, exclude=ex, local=[k for k in range(n) if k not in ex])
    return case


def strategy(tier):
    return cases()


def settings(spec):
    V = Custom.VerifCalculator
    V.reset()
    V.setType(spec["t"])
    for k in ("w", "fine", "a", "b", "g", "rc", "cutoff", "cache"):
        V.setNumber(k, float(spec.get(k) or 0.0))
    for b in spec["base"]:
        V.addBase(float(b))
    for k in spec.get("local", ()):
        V.addLocal(k)
    for k in spec.get("exclude", ()):
        V.addExcluded(k)


def record(case, lat, procs, calculator, log):
    bucket = procs[0].bucket
    sut.seed(case)
    m, cfg, it = sut.model(case, calc=calculator)
    cpp = m._backend()
    out = []
    for step in range(case["steps"] + 1):
        types = sut.types_of(cfg, bucket)
        lists = sut.site_lists(cpp)
        rates = [p.totalRate() for p in cpp.interactions().processes()]
        out.append((step and cfg.latestEventProcess(), step and cfg.latestEventSite(), types, lists, rates))
        if step == case["steps"] or not sum(rates) > 0:
            break
        cpp.propagateTime()
        cpp.singleStep()
    return out


def run(case, ctx):
    lat, procs = load(case)
    global SECOND
    if case["kind"] == "twin":
        spec = case["calc"]
        log = []
        py = record(case, lat, procs, C.calculator(spec, log), log)
        settings(spec)
        co = record(case, lat, procs, "VerifCalculator", None)
        n = Custom.VerifCalculator.calls()
        need(len(log) == n or len(py) != len(co), "%d evaluations in Python, %d in C++", len(log), n)
    elif case["kind"] == "ising":
        py = record(case, lat, procs, Ising, None)
        co = record(case, lat, procs, "IsingTestCalculator", None)
    else:
        # The function of the package knows the types by their numbers: the second one.
        m, cfg, it = sut.model(case, calc=Moves)
        SECOND = "B"
        m._backend()
        SECOND = [t for t in cfg._backendTypeNames()][2]
        py = record(case, lat, procs, Moves, None)
        co = record(case, lat, procs, "BucketsTestCalculator", None)
    varied = False
    for step, (a, b) in enumerate(zip(py, co)):
        need(a[:2] == b[:2] and a[2] == b[2], "step %d: process %s at site %s in Python, process %s at site %s in C++",
             step, a[0], a[1], b[0], b[1])
        need(a[3] == b[3], "step %d: event lists %s in Python, %s in C++", step, a[3], b[3])
        for k, (x, y) in enumerate(zip(a[4], b[4])):
            need(close(x, y, 1e-9, 1e-12), "step %d: rate of process %d is %r in Python, %r in C++", step, k, x, y)
        if case["kind"] == "twin":
            for k, p in enumerate(procs):
                if any(verdict(lat, p, a[2], s, case["implicit"]) == OPEN for s in a[3][k]):
                    continue
                each = [C.reference(case["calc"], lat, p, k, a[2], s) for s in a[3][k]]
                varied = varied or len(set(each)) > 1
                need(close(b[4][k], sum(each), 1e-7, 1e-9), "step %d: process %d has rate %r, the function gives %r",
                     step, k, b[4][k], sum(each))
        elif step and any(abs(x - y) > 1e-9 for x, y in zip(a[4], py[step - 1][4])):
            varied = True
    need(len(py) == len(co), "%d events in Python, %d in C++", len(py) - 1, len(co) - 1)
    return dict(nontrivial=len(py) > 2 and varied, stats={case["kind"]: 1})
