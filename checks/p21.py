"""Input that cannot be meant is refused, input that can be is accepted."""
import os
import random

import numpy
from hypothesis import strategies as st

import KMCLib
from KMCLib import (KMCUnitCell, KMCLattice, KMCConfiguration, KMCProcess, KMCBucketProcess, KMCInteractions,
                    KMCLatticeModel, KMCControlParameters, KMCAnalysisPlugin, KMCBreakerPlugin, KMCRateCalculatorPlugin,
                    OnTheFlyMSD, TimeStepDistribution, ProcessStatistics, KMCConfigurationFromScript, KMCInteractionsFromScript)
from KMCLib.Analysis.Composition import Composition
from KMCLib.Exceptions.Error import Error

from lib import gen, sut
from lib.common import need

VARIANT = "prod"
EXAMPLES = {"quick": 1500, "thorough": 15000}
RULE = ("everything a valid random model is made from is written down as plain arguments; one of them (chosen from a catalogue of "
        "ways to get it wrong, at a random place) is made invalid; the package must refuse with its own error, at the latest "
        "before the first step, without having written a trajectory or stepped, and the unchanged arguments must be accepted "
        "afterwards; non-trivial when an argument was made invalid")
ASSUMPTIONS = ["numbers are floats where the documentation says so (tests pin that integers are refused)"]
CASE_TIMEOUT = 60


class Calc(KMCRateCalculatorPlugin):
    def rate(self, geometry, types_before, types_after, rate_constant, process_number, coordinate):
        return rate_constant


class Ana(KMCAnalysisPlugin):
    pass


class Brk(KMCBreakerPlugin):
    def evaluate(self, step, time, configuration):
        return False


def arguments(case, scratch):
    """The valid model as plain arguments."""
    bucket = isinstance(case["types"][0], dict)
    procs = []
    for p in case["procs"]:
        q = dict(coordinates=[sut.frac(o, p.get("origin", (0, 0, 0))) for o in p["offs"]], basis_sites=list(p["basis"]),
                 rate_constant=p["rate"])
        if bucket:
            q.update(minimum_match=[sut.bucket_entry(b) for b in p["min"]], update=[sut.bucket_entry(b) for b in p["upd"]])
        else:
            mv = None
            if p.get("moves") is not None:
                mv = [(a, [float(x) for x in (numpy.array(sut.frac(p["offs"][b])) - numpy.array(sut.frac(p["offs"][a])))])
                      for a, b in p["moves"]]
            q.update(elements_before=list(p["before"]), elements_after=list(p["after"]), move_vectors=mv)
        procs.append(q)
    return dict(
        bucket=bucket,
        cell=dict(cell_vectors=[list(r) for r in sut.CELL], basis_points=[sut.frac(b) for b in case["basis"]]),
        lattice=dict(repetitions=list(case["reps"]), periodic=list(case["periodic"])),
        config=dict(types=[sut.bucket_entry(t) if bucket else t for t in case["types"]],
                    possible_types=list(case["possible"])),
        procs=procs,
        inter=dict(implicit_wildcards=case["implicit"]),
        control=dict(number_of_steps=3, dump_interval=1, analysis_interval=1, seed=1, rng_type="MT"),
        run=dict(trajectory_filename=os.path.join(scratch, "refused"), trajectory_type="lattice", analysis=[Ana()],
                 breakers=[Brk()]),
        msd=dict(history_steps=5, n_bins=10, t_max=1.0, track_type=case["possible"][0]),
        comp=dict(time_interval=1.0), steps=dict(binsize=1.0), stat=dict(processes=[0], time_interval=1.0,
                                                                           spatially_resolved=True),
        calc=None, objects={})


WAYS = {}


def way(f):
    WAYS[f.__name__] = f
    return f


def pick(r, l):
    return l[r.randrange(len(l))]


class Skip(Exception):
    pass


def plain(s):
    if s["bucket"]:
        raise Skip()


def buckets(s):
    if not s["bucket"]:
        raise Skip()


NOSEQ = [None, 3, 2.5]
NOINT = [None, "1", 1.5, [1]]


# -- unit cell
@way
def cell_not_a_sequence(s, r):
    s["cell"]["cell_vectors"] = pick(r, NOSEQ)


@way
def cell_shape(s, r):
    c = s["cell"]["cell_vectors"]
    k = r.randrange(4)
    if k == 0:
        c.pop()
    elif k == 1:
        c.append([1.0, 0.0, 0.0])
    elif k == 2:
        pick(r, c).pop()
    else:
        pick(r, c).append(0.0)


@way
def cell_entry(s, r):
    pick(r, s["cell"]["cell_vectors"])[r.randrange(3)] = pick(r, ["1.0", None, [1.0]])


@way
def cell_linearly_dependent(s, r):
    c = s["cell"]["cell_vectors"]
    k = r.randrange(3)
    c[k] = pick(r, [[0.0, 0.0, 0.0], list(c[(k + 1) % 3]), [2.0 * x for x in c[(k + 2) % 3]]])


@way
def cell_array(s, r):
    s["cell"]["cell_vectors"] = pick(r, [numpy.eye(3, dtype=int), numpy.eye(2), numpy.ones((3, 3)), numpy.eye(4)])


@way
def basis_not_a_list(s, r):
    s["cell"]["basis_points"] = pick(r, NOSEQ + [[]])


@way
def basis_point(s, r):
    b = s["cell"]["basis_points"]
    k = r.randrange(len(b))
    b[k] = pick(r, [None, 1.0, [0.0, 0.0], [0.0, 0.0, 0.0, 0.0], ["0", "0", "0"]])


@way
def basis_outside(s, r):
    b = s["cell"]["basis_points"]
    pick(r, b)[r.randrange(3)] = pick(r, [1.0, 1.5, -0.1, -1e-3, float("nan"), float("inf")])


# -- lattice
@way
def lattice_cell(s, r):
    s["objects"]["unit_cell"] = pick(r, [None, "cell", [[1.0, 0.0, 0.0]]])


@way
def repetitions(s, r):
    l = s["lattice"]["repetitions"]
    k = r.randrange(4)
    if k == 0:
        s["lattice"]["repetitions"] = pick(r, [4, 2.5, (1, 2), (1, 1, 1, 1), [], "11"])
    elif k == 1:
        l[r.randrange(3)] = pick(r, [0, -1, -5])
    else:
        l[r.randrange(3)] = pick(r, [1.0, "1", None])


@way
def periodic(s, r):
    l = s["lattice"]["periodic"]
    if r.randrange(2):
        s["lattice"]["periodic"] = pick(r, [True, (True, True), (True,) * 4, []])
    else:
        l[r.randrange(3)] = pick(r, ["True", None, 1.0, [True]])


# -- configuration
@way
def config_lattice(s, r):
    s["objects"]["lattice"] = pick(r, [None, "lattice", (1, 1, 1)])


@way
def types_not_a_list(s, r):
    s["config"]["types"] = pick(r, [None, "AB", 3, tuple(s["config"]["types"])])


@way
def types_length(s, r):
    t = s["config"]["types"]
    if r.randrange(2):
        t.append(t[0])
    else:
        t.pop(r.randrange(len(t)))


@way
def types_entry(s, r):
    t = s["config"]["types"]
    t[r.randrange(len(t))] = pick(r, [None, 3, 2.5, [None], [3], [(1,)], [(1, "A", 2)], [("A", 1)], [(1.5, "A")], ("A", 1)])


@way
def types_unknown(s, r):
    t = s["config"]["types"]
    new = pick(r, ["nope", "a b", "", "*"])
    t[r.randrange(len(t))] = [(1, new)] if s["bucket"] else new


@way
def possible_unknown(s, r):
    p = s["config"]["possible_types"]
    present = set()
    for t in s["config"]["types"]:
        present |= {t} if isinstance(t, str) else {e[1] for e in t}
    used = [t for t in p if t in present]
    if not used:
        raise Skip()
    p.remove(pick(r, used))


@way
def possible_not_strings(s, r):
    p = s["config"]["possible_types"]
    if r.randrange(2):
        s["config"]["possible_types"] = pick(r, ["A", 3, tuple(p), {"A": 1}])
    else:
        p.append(pick(r, [None, 1, 1.5, ["A"]]))


@way
def possible_wildcard(s, r):
    s["config"]["possible_types"].insert(r.randrange(3), "*")


@way
def default_with_short(s, r):
    s["config"]["default_type"] = s["config"]["possible_types"][0]


def longform(s):
    plain(s)
    reps, nb = s["lattice"]["repetitions"], len(s["cell"]["basis_points"])
    t = [(i, j, k, b) for i in range(reps[0]) for j in range(reps[1]) for k in range(reps[2]) for b in range(nb)]
    s["config"]["types"] = [x + (y,) for x, y in zip(t, s["config"]["types"])]
    s["config"]["default_type"] = s["config"]["possible_types"][0]
    return s["config"]["types"], reps + [nb]


@way
def long_without_default(s, r):
    longform(s)
    s["config"]["default_type"] = None


@way
def long_default(s, r):
    longform(s)
    s["config"]["default_type"] = pick(r, [3, 1.5, ["A"], "nope", "*"])
    if s["config"]["default_type"] in ("nope", "*"):
        s["config"]["types"] = s["config"]["types"][1:]
        if not s["config"]["types"]:
            raise Skip()


@way
def long_index(s, r):
    t, hi = longform(s)
    k = r.randrange(len(t))
    d = r.randrange(4)
    e = list(t[k])
    e[d] = pick(r, [-1, hi[d], hi[d] + 7, -hi[d]])
    t[k] = tuple(e)


@way
def long_entry(s, r):
    t, hi = longform(s)
    k = r.randrange(len(t))
    e = list(t[k])
    how = r.randrange(4)
    if how == 0:
        e[r.randrange(4)] = pick(r, [1.5, "0", None])
    elif how == 1:
        e[4] = pick(r, [1, None, 2.5, "nope", "*", (1, "A")])
    elif how == 2:
        e.pop()
    else:
        e.append("A")
    t[k] = tuple(e)
    if how == 3 and r.randrange(2):
        t[k] = list(t[k])


@way
def bucket_negative(s, r):
    buckets(s)
    t = s["config"]["types"]
    t[r.randrange(len(t))] = pick(r, [[(-1, s["config"]["possible_types"][0])], (-2, s["config"]["possible_types"][-1])])


# -- processes
def process(s, r):
    return pick(r, s["procs"])


@way
def coordinates(s, r):
    p = process(s, r)
    how = r.randrange(4)
    c = p["coordinates"]
    if how == 0:
        p["coordinates"] = pick(r, NOSEQ + [[]])
    elif how == 1:
        c[r.randrange(len(c))] = pick(r, [None, 1.0, [0.0, 0.0], [0.0] * 4])
    elif how == 2:
        pick(r, c)[r.randrange(3)] = pick(r, ["0", None, 1])
    else:
        c.append([float(x) for x in c[0]])


@way
def elements_length(s, r):
    p = process(s, r)
    l = p[pick(r, ["minimum_match", "update"] if s["bucket"] else ["elements_before", "elements_after"])]
    if r.randrange(2):
        l.append(l[-1])
    else:
        l.pop()


@way
def elements_entry(s, r):
    p = process(s, r)
    l = p[pick(r, ["minimum_match", "update"] if s["bucket"] else ["elements_before", "elements_after"])]
    l[r.randrange(len(l))] = pick(r, [None, 3, 1.5, ["A", 1], [("A", 1)], [(1,)]])


@way
def elements_not_a_list(s, r):
    p = process(s, r)
    k = pick(r, ["minimum_match", "update"] if s["bucket"] else ["elements_before", "elements_after"])
    p[k] = pick(r, NOSEQ)


@way
def elements_unknown(s, r):
    p = process(s, r)
    if s["bucket"]:
        l = p[pick(r, ["minimum_match", "update"])]
        l[r.randrange(len(l))] = [(1, "nope")]
    else:
        k = r.randrange(len(p["elements_before"]))
        if p["elements_before"][k] == "*":
            raise Skip()
        p["elements_after"][k] = "nope"
        p["move_vectors"] = None


@way
def elements_same(s, r):
    plain(s)
    p = process(s, r)
    p["elements_after"] = list(p["elements_before"])


@way
def wildcard_moved(s, r):
    plain(s)
    p = process(s, r)
    k = r.randrange(len(p["elements_before"]))
    if p["elements_before"][k] == "*":
        p["elements_after"][k] = s["config"]["possible_types"][0]
    else:
        p[pick(r, ["elements_before", "elements_after"])][k] = "*"


@way
def move_vectors(s, r):
    plain(s)
    p = process(s, r)
    n = len(p["coordinates"])
    p["move_vectors"] = pick(r, [3, 1.5, [(0, [0.1234, 0.0, 0.0])], [[0, [1.0, 0.0, 0.0]]], [(0.0, [1.0, 0.0, 0.0])],
                                 [(0, [1.0, 0.0])], [(0, ["a", "b", "c"])], [(0, 1.0)], [(0,)],
                                 [(n + 3, [0.0, 0.0, 0.0])], [(0, [1e3, 0.0, 0.0])], ["ab"], [None]])


@way
def moves_not_one_to_one(s, r):
    """Move vectors that do not describe the change, with the types in disguise."""
    plain(s)
    p = process(s, r)
    c = [tuple(x) for x in p["coordinates"]]
    while len(c) < 4:
        c.append((c[0][0] + 3.0 + len(c), c[0][1], c[0][2]))
    c = c[:4]
    v = lambda i, j: [b - a for a, b in zip(c[i], c[j])]
    m = lambda *l: [(i, v(i, j)) for i, j in l]
    a, b = s["config"]["possible_types"][:2]
    x, before, after, moves = pick(r, [
        ("two to one place", [a, a, b, b], [a, a, a, b], m((0, 2), (1, 2))),
        ("onto another", [a, b, b, b], [a, a, b, b], m((0, 1))),
        ("moved twice", [a, b, b, b], [b, a, b, b], m((0, 1), (1, 0), (0, 1))),
        ("others exchange", [a, b, a, b], [b, a, b, a], m((0, 1), (1, 0))),
        ("another changes", [a, b, a, b], [b, a, b, b], m((0, 1), (1, 0))),
        ("another changes", [a, b, a, b], [b, a, a, a], m((0, 1), (1, 0))),
        ("others exchange", [a, b, b, a], [b, a, a, b], m((2, 3), (3, 2))),
        ("only one way", [a, b, a, b], [b, a, a, b], m((0, 1))),
        ("only one way", [a, b, a, b], [b, a, a, b], m((1, 0))),
        ("not there", [a, b, a, b], [b, a, a, b], m((0, 1)) + [(1, [9.5, 0.25, 0.0])])])
    p.update(coordinates=c, elements_before=before, elements_after=after, move_vectors=moves)


@way
def basis_sites(s, r):
    p = process(s, r)
    p["basis_sites"] = pick(r, NOSEQ + [[], [-1], [0, -2], [0.0], ["0"], [None], [[0]]])


@way
def rate_constant(s, r):
    process(s, r)["rate_constant"] = pick(r, [None, "1.0", -1.0, 1, [1.0], float("nan"), float("inf")])


# -- interactions and model
@way
def interactions_processes(s, r):
    s["objects"]["processes"] = pick(r, [None, [], 3, "ab", ["process"], [None]])


@way
def interactions_mixed_in(s, r):
    s["objects"]["extra"] = pick(r, [None, "process", 3])


@way
def removes_too_much(s, r):
    buckets(s)
    p = process(s, r)
    k = r.randrange(len(p["update"]))
    t = pick(r, s["config"]["possible_types"])
    m = p["minimum_match"][k]
    m = [m] if not isinstance(m, list) else m
    there = sum((e[0] if isinstance(e, tuple) else 1) for e in m if (e if isinstance(e, str) else e[1]) == t)
    u = p["update"][k]
    u = [u] if not isinstance(u, list) else u
    p["update"][k] = [e for e in u if (e if isinstance(e, str) else e[1]) not in (t, "*")] + [(-there - pick(r, [1, 2, 7]), t)]


@way
def cell_left_handed(s, r):
    c = s["cell"]["cell_vectors"]
    k = r.randrange(3)
    c[k] = [-x for x in c[k]]


@way
def script(s, r):
    """A script that is not there."""
    s["script"] = (pick(r, [KMCConfigurationFromScript, KMCInteractionsFromScript]),
                   pick(r, ["", "nope.py", "no/such/folder/nope.py", ".", "refused"]))


@way
def not_finite(s, r):
    bad = pick(r, [float("nan"), float("inf"), -float("inf")])
    where = r.randrange(2)
    if where:
        pick(r, process(s, r)["coordinates"])[r.randrange(3)] = bad
    else:
        pick(r, s["cell"]["cell_vectors"])[r.randrange(3)] = bad


@way
def implicit(s, r):
    s["inter"]["implicit_wildcards"] = pick(r, ["True", 1.5, [], "no"])


@way
def calculator(s, r):
    s["calc"] = pick(r, [3, "NoSuchCalculator", Calc.rate, [Calc], object, dict, KMCRateCalculatorPlugin, Ana])


@way
def calculated_rate(s, r):
    value = pick(r, [-1.0, -1e-9, float("nan"), float("inf"), -float("inf"), None, "1.0", [1.0, 2.0]])
    when = r.randrange(3)

    class Bad(KMCRateCalculatorPlugin):
        calls = 0

        def rate(self, geometry, types_before, types_after, rate_constant, process_number, coordinate):
            self.calls += 1
            if self.calls <= when:
                return rate_constant
            s["given"].append(1)
            return value
    s["given"] = []
    s["calc"] = Bad
    s["any_error"] = value is None or not isinstance(value, float)


@way
def all_rates_zero(s, r):
    if r.randrange(2):
        class Zero(Calc):
            def rate(self, *a):
                return 0.0
        s["calc"] = Zero
    else:
        for p in s["procs"]:
            p["rate_constant"] = 0.0


@way
def model_configuration(s, r):
    s["objects"]["configuration"] = pick(r, [None, "configuration", []])


@way
def model_interactions(s, r):
    s["objects"]["interactions"] = pick(r, [None, "interactions", []])


@way
def nothing_possible(s, r):
    t = s["config"]["possible_types"]
    t.append("another")
    for p in s["procs"]:
        if s["bucket"]:
            p["minimum_match"][0] = [(1, "another")]
        else:
            p["elements_before"][0] = "another"
            p["elements_after"][0] = pick(r, t[:-1])
            p["move_vectors"] = None


# -- control parameters and run
@way
def steps(s, r):
    s["control"]["number_of_steps"] = pick(r, ["1", 1.5, [1], -1, -100])


@way
def dump_interval(s, r):
    s["control"]["dump_interval"] = pick(r, ["1", 1.5, [1], -1, 0])


@way
def analysis_interval(s, r):
    s["control"]["analysis_interval"] = pick(r, ["1", 1.5, [1], -1, 0])


@way
def seed(s, r):
    s["control"]["seed"] = pick(r, ["1", 1.5, [1], -1])


@way
def dump_time(s, r):
    s["control"]["dump_time_interval"] = pick(r, ["1", 1, [1.0], 0.0, -0.5])
    del s["control"]["dump_interval"]


@way
def both_intervals(s, r):
    s["control"]["dump_time_interval"] = 1.0


@way
def rng_type(s, r):
    s["control"]["rng_type"] = pick(r, ["mt", "MT19937", "", 3, 1.5])


@way
def control(s, r):
    s["objects"]["control"] = pick(r, [None, 10, "control", {}])


@way
def trajectory_filename(s, r):
    s["run"]["trajectory_filename"] = pick(r, [3, 1.5, ["file"], True])


@way
def trajectory_type(s, r):
    s["run"]["trajectory_type"] = pick(r, [3, "LATTICE", "", "xyzz", ["xyz"]])


@way
def analysis(s, r):
    s["run"]["analysis"] = pick(r, [3, Ana(), [Ana], [None], ["a"], [Ana(), Brk()]])


@way
def breakers(s, r):
    s["run"]["breakers"] = pick(r, [3, Brk(), [Brk], [None], ["a"], [Brk(), Ana()]])


# -- analysis
@way
def msd(s, r):
    k, v = pick(r, [("history_steps", 0), ("history_steps", 1), ("history_steps", -1), ("history_steps", 2.5), ("history_steps", "3"),
                    ("n_bins", 0), ("n_bins", -4), ("n_bins", 1.0), ("t_max", -1.0), ("t_max", "1"), ("t_max", 1),
                    ("track_type", None), ("track_type", 3), ("track_type", "nope"), ("track_type", ["A"])])
    s["msd"][k] = v


@way
def composition(s, r):
    s["comp"]["time_interval"] = pick(r, [-1.0, "1", 1, [1.0]])


@way
def distribution(s, r):
    s["steps"]["binsize"] = pick(r, [-1.0, "1", 1, [1.0]])


@way
def statistics(s, r):
    k, v = pick(r, [("processes", None), ("processes", []), ("processes", [-1]), ("processes", 0), ("processes", ["0"]),
                    ("processes", [0.5]), ("time_interval", -1.0), ("time_interval", "1"), ("time_interval", 2),
                    ("spatially_resolved", "yes"), ("spatially_resolved", 1)])
    s["stat"][k] = v


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=24, max_procs=3, max_steps=1), gen.bucket_case(max_sites=16, max_steps=1),
                          gen.ergodic_case(steps=1, custom=False)))
    case["way"] = draw(st.sampled_from(sorted(WAYS)))
    case["r"] = draw(st.integers(0, 10 ** 6))
    return case


def strategy(tier):
    return cases()


class Watch(KMCAnalysisPlugin):
    def __init__(self):
        self.steps = 0

    def registerStep(self, step, time, configuration):
        self.steps += 1


def simulate(s, watch):
    o = s["objects"]
    if "script" in s:
        f, name = s["script"]
        f(os.path.join(os.path.dirname(s["run"]["trajectory_filename"]), name))
    cell = o["unit_cell"] if "unit_cell" in o else KMCUnitCell(**s["cell"])
    lattice = o["lattice"] if "lattice" in o else KMCLattice(unit_cell=cell, **s["lattice"])
    config = o["configuration"] if "configuration" in o else KMCConfiguration(lattice=lattice, **s["config"])
    procs = [(KMCBucketProcess if s["bucket"] else KMCProcess)(**p) for p in s["procs"]]
    if "extra" in o:
        procs.append(o["extra"])
    inter = KMCInteractions(processes=o["processes"] if "processes" in o else procs, **s["inter"])
    if s["calc"] is not None:
        inter.setRateCalculator(rate_calculator=s["calc"])
    model = KMCLatticeModel(config, o["interactions"] if "interactions" in o else inter)
    extra = [OnTheFlyMSD(**s["msd"]), Composition(**s["comp"]), TimeStepDistribution(**s["steps"]),
             ProcessStatistics(**s["stat"])]
    control = o["control"] if "control" in o else KMCControlParameters(**s["control"])
    kw = dict(s["run"])
    if isinstance(kw["analysis"], list):
        kw["analysis"] = kw["analysis"] + extra + [watch]
    model.run(control, **kw)


def attempt(case, ctx, way):
    s = arguments(case, ctx["scratch"])
    if way:
        WAYS[way](s, random.Random(case["r"]))
    watch = Watch()
    late = s.get("given")
    try:
        simulate(s, watch)
    except Error as e:
        return str(e) or "error", watch.steps, late
    except Exception as e:
        if way is None:
            raise
        return ("not a number" if s.get("any_error") else e), watch.steps, late
    return None, watch.steps, late


def run(case, ctx):
    path = os.path.join(ctx["scratch"], "refused")
    if os.path.exists(path):
        os.remove(path)
    try:
        got, steps, late = attempt(case, ctx, case["way"])
    except Skip:
        return dict(nontrivial=False)
    if late == []:
        # The bad rate was never asked for.
        return dict(nontrivial=False)
    need(got is not None, "%s was accepted", case["way"])
    need(isinstance(got, str), "%s ended with %s: %s instead of the error of the package", case["way"], type(got).__name__, got)
    need(steps == 0 or late, "%s was refused after %d steps only: %s", case["way"], steps, got)
    need(late or case["way"] == "msd" or not os.path.exists(path), "%s was refused, but a trajectory was written: %s", case["way"], got)
    refusal, refused_late = got, late
    got, steps, late = attempt(case, ctx, None)
    if got is not None:
        need("vailable" in got, "valid input was refused: %s", got)
    else:
        # That no event is possible is no refusal.
        need("vailable proc" not in refusal or refused_late or case["way"] in ("all_rates_zero", "nothing_possible"),
             "%s was accepted (%s)", case["way"], refusal)
        need(steps == 3, "%d steps instead of 3", steps)
    return dict(nontrivial=True, stats={"way_" + case["way"]: 1})
