"""A custom rate function with a reference twin."""
from KMCLib import KMCRateCalculatorPlugin

from lib.model import D, R2


def count_one(e, t):
    """How many of type t; an entry is a name, a dict, or a list of (number, name)."""
    if isinstance(e, str):
        return int(e == t)
    if isinstance(e, dict):
        return e.get(t, 0)
    return sum(q for q, name in e if name == t)


def weight(spec, o):
    return 1.0 + 0.3 * ((o[0] + 3 * o[1] + 7 * o[2]) % 5) if spec.get("w") else 1.0


def formula(spec, k, offs, before, after, rate_constant, x):
    t = spec["t"]
    nb = sum(weight(spec, o) * count_one(e, t) for o, e in zip(offs, before))
    na = sum(weight(spec, o) * count_one(e, t) for o, e in zip(offs, after))
    f = spec.get("fine") or 1.0  # rates that hardly differ
    r = spec["base"][k % len(spec["base"])] * (1.0 + f * (spec["a"] * nb + spec["b"] * na))
    if spec.get("g") and k not in spec.get("local", ()):
        r *= 1.0 + f * spec["g"] * (x % 5)
    if spec.get("rc"):
        r *= rate_constant
    if spec.get("wide"):
        r *= 10.0 ** (3 * (int(round(10 * nb)) % 7) - 6)
    return r


def calculator(spec, log=None):
    class Calc(KMCRateCalculatorPlugin):
        def rate(self, coords, types_before, types_after, rate_constant, process_number, global_coordinate):
            x = int(round(sum(global_coordinate) * D))
            offs = [tuple(int(round(c * D)) for c in row) for row in coords]
            r = formula(spec, process_number, offs, types_before, types_after, rate_constant, x)
            if log is not None:
                log.append(dict(coords=[tuple(float(c) for c in row) for row in coords], offs=offs,
                                before=list(types_before), after=list(types_after), rate_constant=rate_constant,
                                k=process_number, at=tuple(float(c) for c in global_coordinate), r=r))
            return r

        def cutoff(self):
            return spec["cutoff"]

        def cacheRates(self):
            return spec.get("cache", False)

        def excludeFromCaching(self):
            return tuple(spec.get("exclude", ()))
    return Calc


def radius2(spec, p):
    """The squared radius, in grid units, of the environment shown to the function."""
    c = spec["cutoff"]
    c2 = D * D if c is None else int(c * c * D * D + 1e-6)
    return max(c2, p.r2)


def after_event(lat, p, types, site):
    """The occupations after process p at a site."""
    out = {}
    for i, o in enumerate(p.offs):
        t = lat.at(site, o)
        if p.bucket:
            cur = dict(types[t])
            for ty, d in p.update[i].items():
                if ty != "*":
                    cur[ty] = cur.get(ty, 0) + d
            out[t] = {a: b for a, b in cur.items() if b}
        elif p.after[i] != "*":
            out[t] = p.after[i]
    return out


def inputs(spec, lat, p, types, site):
    offs = lat.env(site, radius2(spec, p))
    new = after_event(lat, p, types, site)
    before = [types[lat.at(site, o)] for o in offs]
    after = [new.get(lat.at(site, o), types[lat.at(site, o)]) for o in offs]
    return offs, before, after


def reference(spec, lat, p, k, types, site):
    """What the function above must return for process k at a site."""
    offs, before, after = inputs(spec, lat, p, types, site)
    return formula(spec, k, offs, before, after, p.rate, sum(lat.pos[site]))
