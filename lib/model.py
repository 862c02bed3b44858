"""The reference model: an independent, direct statement of what KMCLib simulates.

Positions are exact integers on a grid of D points per cell edge; the code under test gets
them as floats n/D.  Nothing here imports or imitates KMCLib.
"""
import itertools
import math

D = 24
R2 = lambda o: o[0] * o[0] + o[1] * o[1] + o[2] * o[2]  # noqa: E731


class Lattice:
    """Sites, in the documented order: a slowest, then b, c, and the basis fastest."""

    def __init__(self, basis, reps, periodic):
        self.basis = [tuple(b) for b in basis]
        self.reps = tuple(reps)
        self.periodic = tuple(periodic)
        self.nb = len(self.basis)
        self.pos = []
        for i, j, k in itertools.product(*(range(r) for r in self.reps)):
            for b in self.basis:
                self.pos.append((b[0] + D * i, b[1] + D * j, b[2] + D * k))
        self.index = {p: i for i, p in enumerate(self.pos)}
        self.n = len(self.pos)
        self._env = {}
        self._at = {}

    def basis_of(self, site):
        return site % self.nb

    def cell_of(self, site):
        c = site // self.nb
        k = c % self.reps[2]
        c //= self.reps[2]
        return c // self.reps[1], c % self.reps[1], k

    def site(self, i, j, k, b):
        return ((i * self.reps[1] + j) * self.reps[2] + k) * self.nb + b

    def at(self, site, off):
        """The site at an offset, or None."""
        key = (site, off)
        if key in self._at:
            return self._at[key]
        p = self.pos[site]
        q = []
        for d in range(3):
            v = p[d] + off[d]
            if self.periodic[d]:
                v %= D * self.reps[d]
            q.append(v)
        r = self.index.get(tuple(q))
        self._at[key] = r
        return r

    def env(self, site, r2, shells=None):
        """All offsets (exact) of sites within a squared radius, images counted separately."""
        key = (site, r2)
        if key in self._env:
            return self._env[key]
        p = self.pos[site]
        m = math.isqrt(r2) // D + 2
        c = self.cell_of(site)
        out = []
        for cc in itertools.product(*[range(c[d] - m, c[d] + m + 1) if self.periodic[d] else
                                      range(max(0, c[d] - m), min(self.reps[d], c[d] + m + 1)) for d in range(3)]):
            for b in self.basis:
                o = tuple(b[d] + D * cc[d] - p[d] for d in range(3))
                if R2(o) <= r2:
                    out.append(o)
        out.sort(key=lambda o: (R2(o), o))
        self._env[key] = out
        return out

    def central_site(self, b):
        return self.site(self.reps[0] // 2, self.reps[1] // 2, self.reps[2] // 2, b)


class Proc:
    """A process of a case: offsets from the centre, what must be there, what is there after."""

    def __init__(self, d):
        self.offs = [tuple(o) for o in d["offs"]]
        self.rate = d["rate"]
        self.basis = list(d["basis"])
        self.bucket = "min" in d
        if self.bucket:
            self.minimum = d["min"]          # list of {type: n}; {"*": 1} is a wildcard
            self.update = d["upd"]           # list of {type: delta}
        else:
            self.before = list(d["before"])
            self.after = list(d["after"])
        self.moves = d.get("moves")          # None, or [[from, to], ...] (indices into offs)
        self.r2 = max(R2(o) for o in self.offs)

    def is_wild(self, i):
        return "*" in self.minimum[i] if self.bucket else self.before[i] == "*"

    def matches_here(self, lat, types, site):
        """Do all the specified coordinates exist and carry the specified types?  A wildcard
        beyond the edge of a lattice specifies nothing (see verdict)."""
        for i, o in enumerate(self.offs):
            t = lat.at(site, o)
            if t is None:
                if self.is_wild(i):
                    continue
                return False
            if self.bucket:
                for ty, n in self.minimum[i].items():
                    if ty != "*" and types[t].get(ty, 0) < n:
                        return False
            elif self.before[i] != "*" and self.before[i] != types[t]:
                return False
        return True

    def multiplicity(self, lat, types, site):
        if not self.bucket:
            return 1
        m = 1
        for i, o in enumerate(self.offs):
            t = lat.at(site, o)
            for ty, r in self.minimum[i].items():
                if ty == "*" or r == 0 or t is None:
                    continue
                n = types[t].get(ty, 0)
                num = den = 1
                for q in range(r):
                    num *= n - q
                    den *= q + 1
                m *= num // den
        return m


YES, NO, OPEN = 1, 0, None


def verdict(lat, proc, types, site, implicit):
    """Is the process available at the site: YES, NO, or OPEN where the documentation of the
    matching does not settle it (the environment is cut off by an edge of the lattice)."""
    if lat.basis_of(site) not in proc.basis:
        return NO
    if not proc.matches_here(lat, types, site):
        return NO
    if any(lat.at(site, o) is None for o in proc.offs):
        return OPEN
    env = lat.env(site, proc.r2)
    if implicit and len([b for b in proc.basis if b < lat.nb]) == 1:
        centre = lat.central_site(lat.basis_of(site))
        want = lat.env(centre, proc.r2)
        if env == want:
            return YES
        # Wildcards stand for lattice positions that have to be there, as far as something
        # specified lies beyond them.
        if clear(lat, site, env) and clear(lat, centre, want) and all(
                shifted(proc, boxed(lat, site, env, m), boxed(lat, centre, want, m)) for m in boxes(proc)):
            return NO
        return OPEN
    if sorted(env) == sorted(set(proc.offs)):
        return YES
    if clear(lat, site, env) and all(shifted(proc, boxed(lat, site, env, m), set(proc.offs)) for m in boxes(proc)):
        return NO
    return OPEN


def boxes(proc):
    """The numbers of cells within which positions can be looked for: from what the coordinates of
    the process need to what its radius allows."""
    lo = -(-max(abs(c) for o in proc.offs for c in o) // D)
    return range(lo, int((proc.r2 ** 0.5) // D) + 2)


def boxed(lat, site, env, m):
    p, c = lat.pos[site], lat.cell_of(site)
    return [o for o in env if all(abs((o[d] + p[d]) // D - c[d]) <= m for d in range(3))]


def clear(lat, site, env):
    """No site is seen twice through the periodic boundaries."""
    return len({lat.at(site, o) for o in env}) == len(env)


def shifted(proc, env, want):
    """Is there a specified coordinate with a different number of positions nearer to the centre
    than the process has there, whatever the order of equally distant ones?"""
    for i, c in enumerate(proc.offs):
        if proc.is_wild(i):
            continue
        r = R2(c)
        lo1, hi1 = (sum(1 for o in env if R2(o) < r), sum(1 for o in env if R2(o) <= r))
        lo2, hi2 = (sum(1 for o in want if R2(o) < r), sum(1 for o in want if R2(o) <= r))
        if hi1 <= lo2 or hi2 <= lo1:
            return True
    return False


class World:
    """Types plus atom bookkeeping, evolved by the reference rules."""

    def __init__(self, lat, types):
        self.lat = lat
        self.types = list(types)
        self.id_at = list(range(lat.n))
        self.id_pos = [tuple(p) for p in lat.pos]

    def apply(self, proc, site):
        """Returns the list of sites named by the process (targets), after applying it."""
        targets = [self.lat.at(site, o) for o in proc.offs]
        if proc.bucket:
            for i, t in enumerate(targets):
                cur = dict(self.types[t])
                for ty, d in proc.update[i].items():
                    if ty == "*":
                        continue
                    cur[ty] = cur.get(ty, 0) + d
                    if cur[ty] == 0:
                        del cur[ty]
                self.types[t] = cur
        else:
            for i, t in enumerate(targets):
                if proc.after[i] != "*":
                    self.types[t] = proc.after[i]
        moved = []
        if proc.moves:
            src = {}
            for a, b in proc.moves:
                src[b] = (self.id_at[targets[a]],
                          tuple(proc.offs[b][d] - proc.offs[a][d] for d in range(3)))
            for b, (aid, vec) in src.items():
                self.id_at[targets[b]] = aid
                self.id_pos[aid] = tuple(self.id_pos[aid][d] + vec[d] for d in range(3))
                moved.append(aid)
        return targets, moved


def counts(types, possible):
    if types and isinstance(types[0], dict):
        return {p: sum(t.get(p, 0) for t in types) for p in possible}
    return {p: sum(1 for t in types if t == p) for p in possible}


def effective_moves(offs, before, after, moves):
    """The moves the documentation promises when none are given: two sites that swap."""
    if moves is not None:
        return moves
    diff = [i for i in range(len(offs)) if before[i] != after[i]]
    if len(diff) == 2 and before[diff[0]] == after[diff[1]] and before[diff[1]] == after[diff[0]]:
        return [[diff[0], diff[1]], [diff[1], diff[0]]]
    return []
