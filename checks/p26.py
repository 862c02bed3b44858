"""Models do not influence each other, also where they are made from the same parts."""
import gc
import json

from hypothesis import strategies as st

from KMCLib import KMCLatticeModel, KMCInteractions

from lib import gen, sut, runs, calc as C
from lib.common import need
from lib.model import Lattice
from lib.twin import Twin

VARIANT = "prod"
EXAMPLES = {"quick": 240, "thorough": 5000}
RULE = ("two or three models, some made from the same interactions or processes but with different lattices, occupations and "
        "orders of the possible types, or similar ones that differ in one respect, some with custom rates, are run in turns, in "
        "several parts, where the lists they were made from are changed after a model is made in a third of the cases; every step and time is compared with those of each model alone, in an interpreter of its own; non-trivial when two models took "
        "at least two steps each")
ASSUMPTIONS = ["models do not share the configuration object, which is the state of a simulation"]


@st.composite
def cases(draw):
    first = draw(st.one_of(gen.plain_case(max_sites=30, max_procs=3), gen.bucket_case(max_sites=20),
                           gen.ergodic_case(steps=1, custom=False), gen.calc_case(max_sites=30), gen.bulky_case()))
    if draw(st.integers(0, 13)) == 13:
        first = draw(gen.heavy_case(sites=400))
    bucket = isinstance(first["types"][0], dict)
    models = [first]
    share = []
    for _ in range(draw(st.integers(1, 2))):
        how = draw(st.sampled_from(["interactions", "interactions", "processes", "nothing", "similar", "similar"]))
        if how == "nothing":
            models.append(draw(gen.ergodic_case(steps=1, custom=False)))
        elif how == "similar":
            models.append(draw(similar(first)))
        else:
            c = dict(first)
            if draw(st.booleans()):
                c.update(draw(gen.lattice_part(max_sites=30)))
            lat = Lattice(c["basis"], c["reps"], c["periodic"])
            c["possible"] = list(draw(st.permutations(first["possible"]))) + draw(st.sampled_from([[], [], ["zz"], ["0"]]))
            one = gen.bucket(first["possible"]) if bucket else st.sampled_from(first["possible"])
            c["types"] = draw(st.lists(one, min_size=lat.n, max_size=lat.n))
            c["seed"] = draw(st.integers(1, 10 ** 6))
            models.append(c)
        share.append(how)
    turns = draw(st.lists(st.tuples(st.integers(0, len(models) - 1), st.integers(0, 8)).map(list), min_size=2, max_size=7))
    return dict(models=models, share=share, turns=turns, drop=draw(st.booleans()), early=draw(st.booleans()),
                spoil=draw(st.sampled_from([False, False, True])))


@st.composite
def similar(draw, first):
    """The same model but for one thing."""
    c = dict(first)
    what = draw(st.sampled_from(["periodic", "periodic", "reps", "basis", "types", "rates", "possible", "calc", "implicit",
                                 "order"]))
    if what == "periodic":
        d = draw(st.integers(0, 2))
        wide = [i for i in range(3) if c["reps"][i] > 1]
        d = draw(st.sampled_from(wide)) if wide else d
        c["periodic"] = [not p if i == d else p for i, p in enumerate(c["periodic"])]
    elif what == "reps":
        c["reps"] = list(draw(st.permutations(c["reps"])))
    elif what == "basis":
        c["basis"] = [[(x + 1) % 24 if i else x for x in b] for i, b in enumerate(c["basis"])]
    elif what == "types":
        c["types"] = c["types"][1:] + c["types"][:1]
    elif what == "rates":
        c["procs"] = [dict(p, rate=p["rate"] * 1.5) for p in c["procs"]]
    elif what == "possible":
        c["possible"] = list(draw(st.permutations(c["possible"])))
    elif what == "calc" and "calc" in c:
        c["calc"] = dict(c["calc"], base=[x * 1.5 for x in c["calc"]["base"]])
    elif what == "implicit":
        c["implicit"] = not c["implicit"]
    elif what == "order":
        c["procs"] = c["procs"][::-1]
    return c


def strategy(tier):
    return cases()


def calculator(spec):
    class Calc(C.calculator(spec)):
        def rate(self, *args):
            # The calculator belongs to one configuration.
            return C.calculator(spec).rate(self, *args) * (1 + len(self.configuration.types()))
    return Calc


def turn(m, case, k, q):
    bucket = isinstance(case["types"][0], dict)
    rec = runs.Recorder(bucket)
    err = runs.run(m, case, k, seed=case["seed"] + 7 * q, analysis=[rec])
    return rec.log, err


def answer(q):
    c = q["model"]
    m, cfg, it = sut.model(c, calc=calculator(c["calc"]) if "calc" in c else None)
    return [turn(m, c, k, q) for q, k in q["turns"]]


STATE = {}


def setup(ctx):
    STATE["twin"] = None


def run(case, ctx):
    try:
        return compare(case)
    finally:
        sut.GIVEN = None


def compare(case):
    models = case["models"]
    if STATE.get("twin") is None:
        STATE["twin"] = Twin("p26", 0, fork=True)
    alone = []
    for i, c in enumerate(models):
        ans = STATE["twin"].ask(dict(model=c, turns=[(q, k) for q, (j, k) in enumerate(case["turns"]) if j == i]))
        if ans is None or "error" in ans:
            STATE["twin"] = None
            need(False, "model %d alone: %s", i + 1, "crashed" if ans is None else ans["error"])
        alone.append(ans["ok"])
    # The lists they are made from can belong to somebody else, who changes them later.
    sut.GIVEN = [] if case.get("spoil") else None
    c = models[0]
    procs = [sut.process(p) for p in c["procs"]]
    live = []
    shared = None
    for i, c in enumerate(models):
        how = (["interactions"] + case["share"])[i]
        calc = calculator(c["calc"]) if "calc" in c else None
        cfg = sut.configuration(c)
        if how in ("nothing", "similar"):
            it = sut.interactions(c, calc)
        else:
            it = shared
            if how == "processes" or it is None:
                it = KMCInteractions(processes=sut.given(list(procs)), implicit_wildcards=c["implicit"])
                if calc is not None:
                    it.setRateCalculator(rate_calculator=calc)
            if how == "interactions":
                shared = it
        live.append(KMCLatticeModel(cfg, it))
        if case.get("spoil"):
            sut.spoil()
        if case["early"]:
            live[-1]._backend()
    del cfg, it
    shared = procs = None
    seen = [0] * len(models)
    left = [sum(1 for j, k in case["turns"] if j == i) for i in range(len(models))]
    steps = [0] * len(models)
    for q, (i, k) in enumerate(case["turns"]):
        got = json.loads(json.dumps(turn(live[i], models[i], k, q)))
        want = alone[i][seen[i]]
        seen[i] += 1
        where = "turn %d (model %d, %d steps): " % (q + 1, i + 1, k)
        need(got[1] == want[1], where + "ended with %r, alone with %r", got[1], want[1])
        need(len(got[0]) == len(want[0]), where + "%d records, alone %d", len(got[0]), len(want[0]))
        for a, b in zip(got[0], want[0]):
            need(a == b, where + "%s, alone %s", a, b)
        steps[i] += max(0, len(got[0]) - 2)
        left[i] -= 1
        if case["drop"] and left[i] == 0:
            live[i] = None
            gc.collect()
    return dict(nontrivial=sum(s >= 2 for s in steps) >= 2, stats=dict(steps=sum(steps)))
