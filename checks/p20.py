"""Statistics of the events of chosen processes."""
import io

from hypothesis import strategies as st

from KMCLib import ProcessStatistics

from lib import ana
from lib.common import need, close
from lib.model import Lattice

VARIANT = "prod"
EXAMPLES = {"quick": 600, "thorough": 8000}
RULE = ("a random model is run once or twice with statistics of random processes and intervals, some per site, and with a "
        "recorder next to them; counts per block and rates per site are computed from the record; non-trivial with at "
        "least three finished blocks and five counted events")
ASSUMPTIONS = ["a block ends with the first analysed step that is more than the interval after the beginning of the block",
               "the output starts with the second block and gives multiples of the interval as times",
               "counts in blocks add up over runs with the same object, rates per site are those of the last run"]


@st.composite
def cases(draw):
    case = draw(ana.cases())
    n = len(case["procs"])
    case["stat"] = draw(st.lists(st.tuples(st.one_of(st.lists(st.integers(0, n), min_size=1, max_size=3), st.lists(st.integers(0, n), min_size=8, max_size=14)),
                                           st.sampled_from(ana.INTERVALS), st.booleans()), min_size=1, max_size=3))
    return case


def strategy(tier):
    return cases()


def run(case, ctx):
    lat = Lattice(case["basis"], case["reps"], case["periodic"])

    def make():
        return [ProcessStatistics(processes=list(p), time_interval=i, spatially_resolved=s) for p, i, s in case["stat"]]
    rich = False
    want = {}
    for fresh, objs, setup, steps in ana.histories(case, make):
        if fresh:
            want = {k: ([], 0) for k in range(len(objs))}
        for k, (a, (procs, interval, spatial)) in enumerate(zip(objs, case["stat"])):
            i = interval or 1.0
            where = "processes %s, interval %r: " % (procs, i)
            done, now = want[k]
            last = setup[2]
            sites = [0] * lat.n
            for e in steps:
                if e[2] - last > i:
                    done.append(now)
                    now, last = 0, e[2]
                if e[4][0] in procs:
                    now += 1
                    sites[e[4][1]] += 1
            want[k] = done, now
            out = io.StringIO()
            a.printResults(out)
            lines = out.getvalue().rstrip("\n").split("\n")
            need(len(lines) == max(len(done), 1), where + "%d lines, expected %d", len(lines), max(len(done), 1))
            for b, line in enumerate(lines[1:], 1):
                v = [float(q) for q in line.split()]
                n = sum(done[:b + 1])
                e = [b * i, n, done[b] / i, n / (b * i)]
                need(len(v) == 4 and all(close(p, q, 1e-5, 1e-4) for p, q in zip(v, e)), where + "line %d is %r, expected %s",
                     b, line, e)
            got = a.spatialData()
            if not spatial:
                need(got is None, where + "unexpected data per site")
            elif steps:
                t = steps[-1][2] - setup[2]
                need(len(got) == lat.n and all(close(x, y / t, 1e-9) for x, y in zip(got, sites)),
                     where + "rates per site %s, expected %s (%s events in a time of %r)", list(got), [y / t for y in sites],
                     sites, t)
            else:
                need(not any(got) and not any(x != x for x in got), where + "rates per site %s without events", list(got))
            rich |= len(done) >= 3 and sum(done) >= 5
    return dict(nontrivial=bool(rich))
