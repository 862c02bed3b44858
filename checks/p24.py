"""No input and no history makes the compiled code do anything undefined."""
import importlib

from hypothesis import strategies as st

from lib.common import Violation

VARIANT = "asan"
EXAMPLES = {"quick": 800, "thorough": 6000}
CASE_TIMEOUT = 300
SOURCES = ["p01", "p02", "p03", "p06", "p07", "p08", "p09", "p10", "p12", "p13", "p14", "p15", "p17", "p18", "p19", "p20", "p21", "p22",
           "p26"]
RULE = ("the cases of the other checks (random models, histories, custom rates, analyses, trajectories, scripts, refused input) "
        "are run with all compiled code under AddressSanitizer, UndefinedBehaviorSanitizer and with the container checks of "
        "libstdc++; non-trivial when the case is so for the check it comes from")
ASSUMPTIONS = ["what the results are is judged by the other checks; here only accesses outside objects, use of freed memory, "
               "undefined arithmetic and crashes count", "memory that is not initialised is not detected"]
# Those with the most index arithmetic more often.
WEIGHTY = ["p01", "p06", "p06", "p09", "p09", "p10", "p18"]
MODS = {s: importlib.import_module("checks." + s) for s in SOURCES}


@st.composite
def cases(draw, tier):
    s = draw(st.sampled_from(SOURCES + WEIGHTY))
    return dict(of=s, case=draw(MODS[s].strategy(tier)))


def strategy(tier):
    return cases(tier)


def run(case, ctx):
    mod = MODS[case["of"]]
    try:
        info = mod.run(case["case"], ctx) or {}
    except Violation:
        info = {}
    return dict(nontrivial=bool(info.get("nontrivial")), stats={"cases_of_" + case["of"].upper(): 1})
