"""The core comparison: a running model against the reference, step by step."""
from lib.common import need, close
from lib.model import Lattice, Proc, World, verdict, YES, NO, effective_moves, counts
from lib import sut


def load(case):
    lat = Lattice(case["basis"], case["reps"], case["periodic"])
    procs = []
    for d in case["procs"]:
        p = Proc(d)
        if not p.bucket:
            p.moves = effective_moves(p.offs, p.before, p.after, p.moves)
        procs.append(p)
    return lat, procs


def check_lists(case, lat, procs, types, lists, where):
    """The event lists against the reference.  Returns (#available, #open)."""
    n_yes = n_open = 0
    for k, (p, sites) in enumerate(zip(procs, lists)):
        have = set(sites)
        need(len(have) == len(sites), "%s: process %d lists a site twice: %s", where, k, sorted(sites))
        need(all(0 <= s < lat.n for s in sites), "%s: process %d lists a site outside the lattice", where, k)
        for s in range(lat.n):
            v = verdict(lat, p, types, s, case["implicit"])
            if v == YES:
                n_yes += 1
                need(s in have, "%s: process %d is possible at site %d but is not on the event list", where, k, s)
            elif v == NO:
                need(s not in have, "%s: process %d is on the event list at site %d where it is not possible",
                     where, k, s)
            else:
                n_open += 1
    return n_yes, n_open


def expected_process_total(lat, p, types, sites):
    try:
        return sum(p.rate * p.multiplicity(lat, types, s) for s in sites)
    except OverflowError:
        return float("inf")
