"""Generator and driver for the checks of the statistics that are gathered during runs."""
from hypothesis import strategies as st

from lib import gen, sut, runs

INTERVALS = [None, 0.02, 0.1, 0.3, 1.0, 2.5, 10.0]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=30, max_procs=2), gen.bucket_case(max_sites=20, max_procs=2),
                          gen.ergodic_case(steps=1, custom=False), gen.ergodic_case(steps=1, custom=False)))
    long = draw(st.integers(0, 11)) == 11
    if long and draw(st.booleans()):
        case = draw(gen.heavy_case(sites=300))
    if draw(st.integers(0, 7)) == 7:
        # Very fast processes.
        f = draw(st.sampled_from([1e3, 1e6, 1e9, 1e13]))
        for p in case["procs"]:
            p["rate"] *= f
    case.pop("steps", None)
    case["parts"] = [dict(steps=draw(st.integers(0, 500 if long else 60)), seed=draw(st.integers(1, 10 ** 6)), every=draw(
        st.sampled_from([1, 1, 1, 2, 3, 7])), new=draw(st.booleans())) for _ in range(draw(st.integers(1, 2)))]
    return case


def histories(case, make):
    """Runs the parts; gives for each the analysis objects and what a recorder next to them saw."""
    bucket = isinstance(case["types"][0], dict)
    m, cfg, it = sut.model(case)
    objs = None
    for part in case["parts"]:
        fresh = objs is None or part["new"]
        if fresh:
            objs = make()
        rec = runs.Recorder(bucket)
        err = runs.run(m, case, part["steps"], seed=part["seed"], analysis_interval=part["every"], analysis=objs + [rec])
        if not rec.log:
            return
        setup = rec.log[0]
        steps = [e for e in rec.log if e[0].endswith(".step")]
        yield fresh, objs, setup, steps
        if err is not None:
            return
