"""Builds KMCLib objects from a case, through the public interface."""
import numpy
import KMCLib
from KMCLib import (KMCUnitCell, KMCLattice, KMCConfiguration, KMCProcess, KMCBucketProcess,
                    KMCInteractions, KMCLatticeModel, KMCControlParameters, KMCRateCalculatorPlugin)
from KMCLib.Backend import Backend

from lib.model import D

RNG = {"MT": Backend.MT, "MINSTD": Backend.MINSTD, "RANLUX24": Backend.RANLUX24, "RANLUX48": Backend.RANLUX48}

CELL = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]


def frac(o, shift=(0, 0, 0)):
    return [(o[d] + shift[d]) / float(D) for d in range(3)]


# The lists that were given to the package, where they are collected (a list), to change them afterwards.
GIVEN = None


def given(x):
    if GIVEN is not None:
        GIVEN.append(x)
    return x


def spoil():
    """Empty all lists collected."""
    def empty(x):
        if isinstance(x, numpy.ndarray):
            x *= -3.0
        elif isinstance(x, (list, tuple)):
            for y in x:
                empty(y)
            if isinstance(x, list):
                del x[:]
    for x in GIVEN:
        empty(x)
    del GIVEN[:]


def lattice(case):
    cell = case.get("cell") or CELL
    seq = tuple
    if GIVEN is not None:
        cell, seq = given(numpy.array(cell)), list
    uc = KMCUnitCell(cell_vectors=cell, basis_points=given([frac(b) for b in case["basis"]]))
    return KMCLattice(unit_cell=uc, repetitions=given(seq(case["reps"])), periodic=given(seq(case["periodic"])))


def bucket_entry(b):
    return [(n, t) for t, n in sorted(b.items())]


def configuration(case, lat=None, types=None):
    types = case["types"] if types is None else types
    if types and isinstance(types[0], dict):
        types = [bucket_entry(t) for t in types]
    return KMCConfiguration(lattice=lat or lattice(case), types=given(list(types)),
                            possible_types=given(list(case["possible"])))


def process(p):
    sh = p.get("origin", (0, 0, 0))
    coords = [frac(o, sh) for o in p["offs"]]
    if "min" in p:
        return KMCBucketProcess(coordinates=given(coords),
                                minimum_match=given([bucket_entry(m) for m in p["min"]]),
                                update=given([bucket_entry(u) for u in p["upd"]]),
                                basis_sites=given(list(p["basis"])), rate_constant=p["rate"])
    mv = None
    if p.get("moves") is not None:
        mv = [(a, [c for c in (numpy.array(frac(p["offs"][b])) - numpy.array(frac(p["offs"][a]))).tolist()])
              for a, b in p["moves"]]
    return KMCProcess(coordinates=given(coords), elements_before=given(list(p["before"])), elements_after=given(list(p["after"])),
                      move_vectors=given(mv), basis_sites=given(list(p["basis"])), rate_constant=p["rate"])


def interactions(case, calc=None):
    it = KMCInteractions(processes=given([process(p) for p in case["procs"]]), implicit_wildcards=case["implicit"])
    if calc is not None:
        it.setRateCalculator(rate_calculator=calc)
    return it


def model(case, types=None, calc=None):
    cfg = configuration(case, types=types)
    it = interactions(case, calc)
    return KMCLatticeModel(cfg, it), cfg, it


def seed(case):
    Backend.setRngType(RNG[case.get("rng", "MT")])
    Backend.seedRandom(False, case["seed"])


def site_lists(cpp):
    return [list(p.sites()) for p in cpp.interactions().processes()]


def types_of(cfg, bucket):
    """Current occupation in the reference model's terms."""
    ty = cfg.types()
    if not bucket:
        return [str(t) for t in ty]
    out = []
    for t in ty:
        d = {}
        for e in t:
            d[str(e)] = d.get(str(e), 0) + 1
        out.append(d)
    return out
