"""Running whole simulations through the public run function, and what they record."""
import copy

from KMCLib import KMCAnalysisPlugin, KMCBreakerPlugin, KMCControlParameters
from KMCLib.Exceptions.Error import Error

import numpy

from lib import sut


class Bomb(Exception):
    """Raised by a plugin of ours."""


class Recorder(KMCAnalysisPlugin):
    """Writes down every call with the state at that moment."""

    def __init__(self, bucket, ids=False, log=None, name="analysis", bomb=None):
        self.bucket, self.ids, self.name, self.bomb = bucket, ids, name, bomb
        self.log = [] if log is None else log

    def state(self, cfg):
        t = sut.types_of(cfg, self.bucket)
        if not self.ids:
            return t
        return t, [tuple(float(x) for x in c) for c in cfg.atomIDCoordinates()], [str(x) for x in cfg.atomIDTypes()]

    def setup(self, step, time, configuration):
        self.log.append((self.name + ".setup", step, time, self.state(configuration)))

    def registerStep(self, step, time, configuration):
        ev = configuration.latestEventProcess(), configuration.latestEventSite()
        self.log.append((self.name + ".step", step, time, self.state(configuration), ev))
        if self.bomb is not None and step >= self.bomb:
            raise Bomb("at step %d" % step)

    def finalize(self):
        self.log.append((self.name + ".finalize",))


class Breaker(KMCBreakerPlugin):
    def __init__(self, bucket, interval, at, log, name, bomb=None):
        self.bucket, self.n, self.at, self.log, self.name, self.bomb = bucket, interval, at, log, name, bomb

    def setup(self, step, time, configuration):
        self.log.append((self.name + ".setup", step, time, sut.types_of(configuration, self.bucket)))

    def evaluate(self, step, time, configuration):
        self.log.append((self.name + ".evaluate", step, time, sut.types_of(configuration, self.bucket)))
        if self.bomb is not None and step >= self.bomb:
            raise Bomb("at step %d" % step)
        yes = self.at is not None and step >= self.at
        # As a comparison of Python numbers or of numpy numbers gives it.
        return numpy.bool_(yes) if self.n % 2 else yes

    def interval(self):
        return self.n


def run(model, case, steps, seed=None, **kw):
    """model.run; returns None or the error message."""
    ctl = {k: kw.pop(k) for k in ("dump_interval", "analysis_interval", "dump_time_interval") if k in kw}
    cp = KMCControlParameters(number_of_steps=steps, seed=case["seed"] if seed is None else seed,
                              rng_type=case.get("rng", "MT"), **ctl)
    try:
        model.run(cp, **kw)
    except Error as e:
        return str(e)
    except Bomb as e:
        return e
    return None


def truth(case, steps, ids=False, before=0):
    """State after every step of an undisturbed run; index 0 is the start."""
    m, cfg, it = sut.model(case)
    rec = Recorder(isinstance(case["types"][0], dict), ids=ids)
    err = run(m, case, steps, analysis=[rec])
    out = [(e[1], e[2], e[3], e[4] if len(e) > 4 else None) for e in rec.log if not e[0].endswith("finalize")]
    return out, err


def read_lattice_trajectory(path):
    d = {}
    with open(path) as fh:
        exec(compile(fh.read(), path, "exec"), {}, d)
    return d


def read_xyz(path):
    """A straightforward reader of the documented layout."""
    with open(path) as fh:
        lines = fh.read().split("\n")
    out = dict(head=lines[0], frames=[])
    i = 1
    while i < len(lines):
        w = lines[i].split()
        if not w:
            i += 1
        elif w[:2] == ["CELL", "VECTORS"]:
            out["cell"] = [[float(x) for x in lines[i + 1 + q].split()[1:]] for q in range(3)]
            i += 4
        elif w[0] == "REPETITIONS":
            out["reps"] = [int(x) for x in w[1:]]
            i += 1
        elif w[0] == "PERIODICITY":
            out["periodic"] = [{"True": True, "False": False}[x] for x in w[1:]]
            i += 1
        elif w[0] == "STEP":
            n = int(lines[i + 1])
            t = lines[i + 2].split()
            assert t[0] == "TIME", t
            rows = []
            for q in range(n):
                r = lines[i + 3 + q].split()
                assert len(r) == 5, r
                rows.append((r[0], tuple(float(x) for x in r[1:4]), int(r[4])))
            out["frames"].append((int(w[1]), float(t[1]), rows))
            i += 3 + n
        else:
            raise AssertionError("unexpected line %r" % lines[i])
    return out
