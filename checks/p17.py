"""Scripts: what is saved is what comes back."""
import os

import numpy
from hypothesis import strategies as st

from KMCLib import KMCLatticeModel, KMCLocalConfiguration, KMCConfigurationFromScript, KMCInteractionsFromScript
from KMCLib.Exceptions.Error import Error
from KMCLib.Utilities.SaveAndReadUtilities import KMCLatticeModelFromScript
from KMCLib.Backend import Backend

from lib import gen, sut
from lib.common import need, close
from lib.common_kmc import load
from lib.model import D

VARIANT = "prod"
EXAMPLES = {"quick": 375, "thorough": 5000}
RULE = ("a random model is stepped, its configuration and interactions (or the whole model) are written as scripts and read "
        "back; lattice, occupation, possible types, event lists and rates are compared with the original, and the copy is "
        "stepped from the same seed next to a model built anew; non-trivial with an event before and after")
ASSUMPTIONS = ["numbers are written with seven digits",
               "custom rate functions are code of the user and not part of the scripts",
               "the numbers and paths of the particles are not part of the scripts"]


@st.composite
def cases(draw):
    case = draw(st.one_of(gen.plain_case(max_sites=50, max_procs=3, max_steps=8), gen.bucket_case(max_sites=30, max_steps=8), gen.bulky_case(max_steps=8),
                          gen.plain_case(max_sites=50, max_procs=3, max_steps=8, movers=True)))
    if draw(st.integers(0, 11)) == 11:
        case = draw(gen.heavy_case(sites=1000, steps=20))
    if draw(st.integers(0, 3)) == 0:
        case = gen.renamed(draw, case, gen.ODD)
    f = st.sampled_from([-0.5, 0.0, 0.0, 0.25, 1e-3])
    case["cell"] = [[2.5, draw(f), draw(f)], [draw(f), 3.0, draw(f)], [draw(f), draw(f), 4.1234]]
    case["how"] = draw(st.sampled_from(["model", "parts", "parts"]))
    case["name"] = draw(st.sampled_from([None, "foo", "x_1"]))
    case["before"] = draw(st.integers(0, 6))
    case["left_out"] = draw(st.sampled_from([0, 0, 1, 2]))
    case["read"] = draw(st.booleans())
    return case


def strategy(tier):
    return cases()


def rates(cpp):
    return [p.totalRate() for p in cpp.interactions().processes()]


def save(path, text):
    with open(path, "w") as fh:
        fh.write("from KMCLib import *\n" + text)


def exported(case, lat, cfg, types):
    """The script for the other program: the cell and the particles of the chosen types, where they are."""
    names = dict(list(zip(case["possible"], ["Iron", "Copper", "Vanadium", "Oxygen", "Cerium", "Zinc", "Gold"]))[case["left_out"]:])
    want = sorted((names[t], tuple(lat.pos[s])) for s, t in enumerate(types) if t in names)
    if not want:
        return
    env = dict({n: n for n in names.values()}, Angstrom=1.0, UnitCell=lambda a, b, c: [a, b, c], BulkConfiguration=dict)
    text = cfg._atkScript(names)
    # [...]*Angstrom scales a list there.
    exec(text.replace("]*Angstrom", "]"), env)
    got = env["bulk_configuration"]
    for d in range(3):
        ref = [x * case["reps"][d] for x in case["cell"][d]]
        need(max(abs(x - y) for x, y in zip(got["bravais_lattice"][d], ref)) < 1e-6, "exported cell vector %d is %s, expected %s", d,
             got["bravais_lattice"][d], ref)
    need(len(got["elements"]) == len(got["fractional_coordinates"]) == len(want), "%d elements and %d coordinates exported for %d "
         "particles", len(got["elements"]), len(got["fractional_coordinates"]), len(want))
    have = []
    for e, c in zip(got["elements"], got["fractional_coordinates"]):
        v = [x * r * D for x, r in zip(c, case["reps"])]
        q = [int(round(x)) for x in v]
        need(max(abs(x - y) for x, y in zip(v, q)) < 1e-3, "an exported particle is at %s, not a site", c)
        have.append((e, tuple(x % (D * r) if per else x for x, r, per in zip(q, case["reps"], case["periodic"]))))
    need(sorted(have) == want, "exported particles %s, expected %s", sorted(have), want)


def local(case, bucket):
    """The script of the local configuration of a process."""
    p = case["procs"][0]
    types = p["min"] if bucket else p["before"]
    c = KMCLocalConfiguration(coordinates=[sut.frac(o) for o in p["offs"]], types=[sut.bucket_entry(t) for t in types] if bucket else types,
                              center=0)
    env = dict(KMCLocalConfiguration=KMCLocalConfiguration)
    exec(c._script(), env)
    d = env["local_configuration"]
    need(d.types() == c.types(), "the types %s of a local configuration became %s", c.types(), d.types())
    need(numpy.abs(numpy.array(c.coordinates()) - numpy.array(d.coordinates())).max() < 1e-5, "the coordinates %s of a local "
         "configuration became %s", c.coordinates(), d.coordinates())


def run(case, ctx):
    lat, procs = load(case)
    bucket = procs[0].bucket
    sut.seed(case)
    m, cfg, it = sut.model(case)
    cpp = m._backend()
    done = 0
    for _ in range(case["before"]):
        if not any(sut.site_lists(cpp)):
            break
        cpp.singleStep()
        done += 1
        if case["read"]:
            cfg.types()
    kw = {} if case["name"] is None else dict(variable_name=case["name"])
    path = os.path.join(ctx["scratch"], "script.py")
    if case["how"] == "model":
        save(path, m._script(**kw))
        m2 = KMCLatticeModelFromScript(path)
        need(isinstance(m2, KMCLatticeModel), "the script of a model gives %r", m2)
        cfg2 = KMCConfigurationFromScript(path)
    else:
        save(path, cfg._script(**kw))
        cfg2 = KMCConfigurationFromScript(path)
        if case["name"]:
            d = {}
            exec(open(path).read(), d)
            need(case["name"] in d, "the script does not define %s", case["name"])
        save(path, it._script(**kw))
        it2 = KMCInteractionsFromScript(path)
        m2 = KMCLatticeModel(cfg2, it2)
    types = sut.types_of(cfg, bucket)
    if not bucket:
        exported(case, lat, cfg, types)
    local(case, bucket)
    # The configuration.
    a, b = cfg.lattice(), cfg2.lattice()
    need(numpy.abs(numpy.array(a.sites()) - numpy.array(b.sites())).max() < 1e-5, "the sites differ")
    need(numpy.allclose(a.unitCell().cellVectors(), b.unitCell().cellVectors(), 1e-6, 1e-6), "the cell vectors differ")
    need(list(a.repetitions()) == list(b.repetitions()) and list(a.periodic()) == list(b.periodic()),
         "repetitions or periodicity differ")
    need(cfg2.possibleTypes() == cfg.possibleTypes(), "possible types %s became %s", cfg.possibleTypes(), cfg2.possibleTypes())
    got = sut.types_of(cfg2, bucket)
    need(got == types, "after %d events: occupation %s became %s", done, types, got)
    if case["how"] == "model":
        cpp2 = m2._backend()
    # The same model, built anew from the present occupation.
    m3, cfg3, it3 = sut.model(dict(case, types=types))
    cpp3, cpp2 = m3._backend(), m2._backend()
    if case["how"] == "model":
        cfg2 = None
    sut.seed(dict(case, seed=case["seed"] + 1))
    trace, where = [], []
    for c in (cpp3, cpp2):
        sut.seed(dict(case, seed=case["seed"] + 1))
        rec, paths = [], []
        for step in range(case["steps"] + 1):
            lists = [sorted(l) for l in sut.site_lists(c)]
            rec.append((lists, rates(c)))
            if step == case["steps"] or not any(lists):
                break
            c.singleStep()
            conf = c.configuration()
            rec[-1] += (conf.latestEventProcess(), conf.latestEventSite(), sorted(set(conf.movedAtomIDs())) if not bucket else [])
            paths.append([] if bucket else [[q.x(), q.y(), q.z()] for q in conf.atomIDCoordinates()])
        trace.append(rec)
        where.append(paths)
    need(len(trace[0]) == len(trace[1]), "%d events, %d with the model from the script", len(trace[0]) - 1, len(trace[1]) - 1)
    for step, (x, y) in enumerate(zip(*trace)):
        need(x[0] == y[0], "after %d events: possible events %s, %s with the model from the script", step, x[0], y[0])
        need(all(close(p, q, 1e-5) for p, q in zip(x[1], y[1])), "after %d events: rates %s, %s with the model from the script",
             step, x[1], y[1])
        need(x[2:] == y[2:], "event %d: process, site and moved particles %s, %s with the model from the script", step + 1, x[2:], y[2:])
    for step, (x, y) in enumerate(zip(*where)):
        need(len(x) == len(y) and (not x or numpy.abs(numpy.array(x) - numpy.array(y)).max() < 1e-3),
             "event %d takes the particles to %s, to %s with the model from the script", step + 1, x, y)
    # And a script of the copy is the same again.
    need(KMCConfigurationFromScript(path) is not None or case["how"] != "model", "no configuration in the script of a model")
    return dict(nontrivial=done > 0 and len(trace[0]) > 1)
