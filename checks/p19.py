"""Composition and distribution of the time steps."""
import io

import numpy
from hypothesis import strategies as st

from KMCLib import TimeStepDistribution
from KMCLib.Analysis.Composition import Composition

from lib import ana, gen, sut
from lib.common import need, close

VARIANT = "prod"
EXAMPLES = {"quick": 600, "thorough": 8000}
RULE = ("a random model is run once or twice with compositions and time step distributions of random intervals and with a "
        "recorder next to them; averages per block and the histogram are computed from the record; non-trivial with at "
        "least two finished blocks and three filled bins; also single distributions fed with steps at the borders of their bins")
ASSUMPTIONS = ["a block ends with the first analysed step that is more than the interval after the beginning of the block",
               "times are labels: block number times the interval plus half an interval", "data add up over runs with the "
               "same object"]


@st.composite
def cases(draw):
    case = draw(ana.cases())
    case["comp"] = draw(st.lists(st.sampled_from(ana.INTERVALS), min_size=1, max_size=2))
    case["bins"] = draw(st.lists(st.sampled_from(ana.INTERVALS), min_size=1, max_size=2))
    return case


@st.composite
def steps(draw):
    """Time steps at the borders of the bins, in binary fractions."""
    size = draw(st.sampled_from([1.0, 0.5, 2.0 ** -20, 4.0, 2.0 ** 30]))
    k = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 150), st.integers(0, 3000))
    at = st.sampled_from([0, 0, 1, 2 ** 31, 2 ** 32 - 1])
    return dict(kind="steps", size=size, start=draw(st.sampled_from([0, 0, 3, 777])),
                steps=draw(st.lists(st.tuples(k, at), min_size=1, max_size=30)), end=draw(st.integers(0, 30)))


def strategy(tier):
    return gen.mostly(cases(), steps(), 5)


def one_by_one(case):
    """The distribution as a plugin of its own, called with given times."""
    size = case["size"]
    m, cfg, it = sut.model(SMALL)
    a = TimeStepDistribution(binsize=size)
    h = {}
    # In units of 2^-32 bins: exact.
    t = case["start"] << 32
    runs = [case["steps"][:case["end"]], case["steps"][case["end"]:]]
    for n, part in enumerate(runs):
        t += 12345 * n
        a.setup(0, t * size / 2 ** 32, cfg)
        for i, (k, q) in enumerate(part):
            t += (k << 32) + q
            a.registerStep(i + 1, t * size / 2 ** 32, cfg)
            h[k] = h.get(k, 0) + 1
        if n or part:
            a.finalize()
            got = {b: int(x) for b, x in enumerate(a.histogram()) if x}
            need(got == h, "time steps %s in bins of %r: %s, expected %s", case["steps"], size, got, h)
    return dict(nontrivial=len(h) >= 3 and max(h) > 20)


SMALL = dict(basis=[[0, 0, 0]], reps=[3, 1, 1], periodic=[True, False, False], possible=["A", "V"], types=["A", "V", "V"],
             procs=[dict(offs=[[0, 0, 0]], before=["A"], after=["V"], moves=None, basis=[0], rate=1.0, origin=[0, 0, 0])],
             implicit=True, seed=1, rng="MT")


def count(types, possible):
    r = [0] * len(possible)
    for t in types:
        for k, p in enumerate(possible):
            r[k] += t.get(p, 0) if isinstance(t, dict) else int(t == p)
    return r


def blocks(interval, setup, steps, possible):
    out = []
    last, n = setup[2], 1
    total = numpy.array(count(setup[3], possible))
    for e in steps:
        if e[2] - last > interval:
            out.append(total / float(n))
            total, n, last = 0 * total, 0, e[2]
        total = total + numpy.array(count(e[3], possible))
        n += 1
    return out


def run(case, ctx):
    if case.get("kind") == "steps":
        return one_by_one(case)

    def make():
        return ([Composition(time_interval=i) for i in case["comp"]] + [TimeStepDistribution(binsize=i) for i in case["bins"]])
    blocked = filled = False
    want = {}
    for fresh, objs, setup, steps in ana.histories(case, make):
        if fresh:
            want = {}
        for k, a in enumerate(objs):
            if k < len(case["comp"]):
                i = case["comp"][k] or 1.0
                out = io.StringIO()
                a.printResults(out)
                lines = [line.split() for line in out.getvalue().rstrip("\n").split("\n")]
                names = lines[0][1:]
                need(lines[0][0] == "time" and set(case["possible"]) <= set(names) and len(set(names)) == len(names)
                     and "*" not in names, "types %s in the output, expected %s", names, case["possible"])
                want.setdefault(k, []).extend(blocks(i, setup, steps, names))
                w = want[k]
                data = a.data()
                need(len(data) == len(w), "composition with interval %r: %d blocks, expected %d", i, len(data), len(w))
                need(len(a.times()) == len(w) and all(close(t, (b + 0.5) * i, 1e-9) for b, t in enumerate(a.times())),
                     "composition with interval %r: times %s", i, a.times())
                for b, (x, y) in enumerate(zip(data, w)):
                    need(len(x) == len(y) + 1 and all(close(p, q, 1e-9) for p, q in zip(x[1:], y)),
                         "composition with interval %r: block %d has %s of %s, expected %s", i, b, list(x)[1:], names, list(y))
                need(len(lines) == len(w) + 1, "%d lines printed, expected %d", len(lines), len(w) + 1)
                for b, (line, y) in enumerate(zip(lines[1:], w)):
                    v = [float(q) for q in line]
                    need(len(v) == len(y) + 1 and all(close(p, q, 1e-3, 1e-6) for p, q in zip(v, [(b + 0.5) * i] + list(y))),
                         "composition with interval %r: line %d is %s, expected %s", i, b, line, list(y))
                blocked |= len(w) >= 2
            else:
                i = case["bins"][k - len(case["comp"])] or 1.0
                h = want.setdefault(k, {})
                last = setup[2]
                for e in steps:
                    b = int((e[2] - last) / i)
                    h[b] = h.get(b, 0) + 1
                    last = e[2]
                got = [int(x) for x in a.histogram()]
                need(len(got) > max(h, default=0) and {b: n for b, n in enumerate(got) if n} == h,
                     "time steps in bins of %r: %s, expected %s", i, {b: n for b, n in enumerate(got) if n}, h)
                need(len(a.timeSteps()) == len(got) and all(close(t, (b + 0.5) * i, 1e-9) for b, t in enumerate(a.timeSteps())),
                     "time step bins of %r are labelled %s", i, list(a.timeSteps()))
                n = float(sum(h.values()))
                if n:
                    need(len(a.normalizedHistogram()) == len(got) and all(
                        close(x, y / n, 1e-9) for x, y in zip(a.normalizedHistogram(), got)),
                        "normalised histogram %s of %s", list(a.normalizedHistogram()), got)
                    out = io.StringIO()
                    a.printResults(out)
                    lines = out.getvalue().rstrip("\n").split("\n")
                    need(len(lines) == len(got), "%d lines printed, expected %d", len(lines), len(got))
                    for b, line in enumerate(lines):
                        v = [float(q) for q in line.split()]
                        need(len(v) == 3 and close(v[0], (b + 0.5) * i, 1e-4, 1e-4) and v[1] == got[b]
                             and close(v[2], got[b] / n, 1e-6), "time steps in bins of %r: line %d is %r", i, b, line)
                filled |= len(h) >= 3
    return dict(nontrivial=blocked and filled)
